"""The memory layout of an array does not change what is computed from it."""
import numpy as np

from .engine import Tree
from .util import need, outcome, close


def _strided(a):
    b = np.full(tuple(2 * s + 1 for s in a.shape), a.flat[0] if a.size else 0,
                a.dtype)
    v = b[tuple(slice(None, 2 * s, 2) for s in a.shape)]
    v[...] = a
    return v


def _negative(a):
    s = tuple(slice(None, None, -1) for _ in a.shape)
    return a[s].copy()[s]


def _readonly(a):
    b = a.copy()
    b.flags.writeable = False
    return b


LAYOUTS = {'strided': _strided, 'negative strides': _negative,
           'read-only': _readonly, 'Fortran order': np.asfortranarray,
           'part of a larger array': lambda a: np.concatenate(
               [a[:1], a, a[:1]])[1:-1]}


def flat(o):
    if isinstance(o, dict) or hasattr(o, 'keys'):
        return [y for k in o.keys() for y in flat(o[k])]
    if isinstance(o, (tuple, list)):
        return [y for x in o for y in flat(x)]
    return [np.asarray(o)]


def tree(cases, jit=()):
    """cases: name -> (function, arrays...); every layout of every array.

    jit: only these layouts, where each has to be compiled for."""
    names = [n for n in LAYOUTS if not jit or n in jit]
    base = {}

    def body(ch):
        n = ch.pick(list(cases), 'function')
        f, args = cases[n][0], cases[n][1:]
        if n not in base:
            base[n] = [v.copy() for v in flat(f(*[a.copy() for a in args]))]
        which = [ch.pick(['as is'] + names, f'layout of argument {i}')
                 for i in range(len(args))] if len(args) < 3 else None
        if which is None:
            i = ch.pick(list(range(len(args))), 'argument')
            k = ch.pick(names, 'layout')
            which = [k if j == i else 'as is' for j in range(len(args))]
        arrs = [a.copy() if k == 'as is' else LAYOUTS[k](a)
                for a, k in zip(args, which)]
        st, out = outcome(f, *arrs)
        need(st == 'ok', '%s: %r', n, out)
        out = flat(out)
        need(len(out) == len(base[n]), '%s: number of results', n)
        for a, b in zip(out, base[n]):
            if b.dtype.kind in 'biufc':
                close(a, b, n, rtol=1e-9, atol=1e-12)
            else:
                need(a.tolist() == b.tolist(), '%s: %s', n, a)
        for i, (a, b) in enumerate(zip(arrs, args)):
            need(a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype
                                                       .kind == 'f'),
                 '%s changed argument %d', n, i)
        return (n,) + tuple(which)
    return Tree('memory', body)
