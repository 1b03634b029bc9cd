"""Bounded exhaustive exploration of pyhipp (see /verif/DESIGN.md)."""
