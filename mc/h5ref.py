"""Reference model of an HDF5 tree: plain dicts and numpy arrays."""
import h5py
import numpy as np

from pyhipp.core import DataDict
from pyhipp.io import h5

from .engine import Violation
from .util import need, outcome, eq


class RG:
    def __init__(self):
        self.c, self.attrs = {}, {}


class RD:
    def __init__(self, v):
        self.v, self.attrs = v, {}


class RL:
    def __init__(self, path):
        self.path = path


class RX(RL):
    """Link into another file's tree."""

    def __init__(self, tree, path):
        self.tree, self.path = tree, path


class Err(Exception):
    pass


def stored(data):
    """What reading back a freshly created dataset gives."""
    if isinstance(data, str):
        return data.encode()
    if isinstance(data, bytes):
        return data
    return np.array(data)


def parts(path):
    return [p for p in path.split('/') if p]


class Tree:
    def __init__(self):
        self.root = RG()

    def lookup(self, path, base=None, depth=0):
        if depth > 8:
            raise Err(path)
        g = self.root if path.startswith('/') or base is None else base
        for p in parts(path):
            if not isinstance(g, RG) or p not in g.c:
                raise KeyError(path)
            n = g.c[p]
            if isinstance(n, RL):
                n = self.follow(n, g, depth + 1)
            g = n
        return g

    def follow(self, n, g, depth=0):
        if isinstance(n, RX):
            return n.tree.lookup(n.path, None, depth)
        return self.lookup(n.path, g, depth)

    def has(self, path, base=None):
        try:
            self.lookup(path, base)
            return True
        except KeyError:
            return False

    def parent(self, path, base=None, create=True):
        g = self.root if path.startswith('/') or base is None else base
        for p in parts(path)[:-1]:
            if not isinstance(g, RG):
                raise Err(path)
            if p not in g.c:
                if not create:
                    raise KeyError(path)
                g.c[p] = RG()
            n = g.c[p]
            g = self.follow(n, g) if isinstance(n, RL) else n
        if not isinstance(g, RG):
            raise Err(path)
        return g, parts(path)[-1]

    def can_make(self, path, base=None):
        """True if every existing component on the way is a group."""
        g = self.root if path.startswith('/') or base is None else base
        for p in parts(path)[:-1]:
            if not isinstance(g, RG):
                return False
            if p not in g.c:
                return True
            n = g.c[p]
            g = self.follow(n, g) if isinstance(n, RL) else n
        return isinstance(g, RG)

    def dangling(self):
        def walk(g):
            for n in g.c.values():
                if isinstance(n, RL):
                    if not (n.tree.has(n.path) if isinstance(n, RX) else
                            self.has(n.path, g)):
                        return True
                elif isinstance(n, RG) and walk(n):
                    return True
            return False
        return walk(self.root)

    def resolved(self, g, k):
        n = g.c[k]
        return self.follow(n, g) if isinstance(n, RL) else n


def same_val(got, want, what):
    if isinstance(want, bytes):
        need(got == want, '%s: %r, expected %r', what, got, want)
        return
    eq(got, want, what)
    need(np.asarray(got).dtype == want.dtype, '%s: dtype %s, expected %s',
         what, np.asarray(got).dtype, want.dtype)


def as_dict(tree, g):
    return {k: as_dict(tree, n) if isinstance(n, RG) else n.v
            for k, n in ((k, tree.resolved(g, k)) for k in g.c)}


def cmp_load(got, want, what='/'):
    need(type(got) is DataDict, '%s: load gives a %s', what,
         type(got).__name__)
    need(set(got.keys()) == set(want) and len(got) == len(want),
         '%s: load has %s, expected %s', what, sorted(got.keys()),
         sorted(want))
    for k, v in want.items():
        if isinstance(v, dict):
            cmp_load(got[k], v, what + k + '/')
        else:
            same_val(got[k], v, what + k)


def cmp_attrs(a, want, what):
    need(len(a) == len(want) and set(a.keys()) == set(want),
         '%s: attributes %s, expected %s', what, list(a.keys()), list(want))
    its = dict(a.items())
    need(set(its) == set(want) and len(list(a.values())) == len(want),
         '%s: attribute items', what)
    for k, v in want.items():
        need(k in a, '%s: attribute %s not contained', what, k)
        if isinstance(v, (str, bytes)):
            need(a[k] == v, '%s@%s = %r, expected %r', what, k, a[k], v)
        else:
            same_val(a[k], v, f'{what}@{k}')
            same_val(its[k], v, f'{what}@{k} (items)')


def cmp_tree(tree, impl, g=None, what='/', depth=0):
    """Everything observable through the public group interface."""
    g = tree.root if g is None else g
    need(isinstance(impl, h5.Group), '%s is a %s', what, type(impl).__name__)
    names = set(g.c)
    keys = list(impl.keys())
    need(len(keys) == len(names) and set(keys) == names,
         '%s: keys %s, expected %s', what, keys, sorted(names))
    need(len(impl) == len(names), '%s: len %d, expected %d', what, len(impl),
         len(names))
    items = list(impl.items())
    need([k for k, _ in items] == keys, '%s: items vs keys', what)
    vals = list(impl.values())
    need(len(vals) == len(keys), '%s: values', what)
    dn = {k for k in names if isinstance(tree.resolved(g, k), RD)}
    ds = impl.datasets
    need(set(ds.keys()) == dn and len(ds.keys()) == len(dn),
         '%s: dataset keys %s, expected %s', what, list(ds.keys()),
         sorted(dn))
    need(dict(ds.items()).keys() == dn and len(list(ds.values())) == len(dn),
         '%s: dataset items', what)
    cmp_attrs(impl.attrs, g.attrs, what)
    for (k, v), v2 in zip(items, vals):
        n = tree.resolved(g, k)
        need(k in impl, '%s: %s not contained', what, k)
        w = what + k
        need(type(v) is type(v2) is type(impl[k]), '%s: types', w)
        if isinstance(n, RD):
            need(isinstance(v, h5.Dataset), '%s is a %s, expected a dataset',
                 w, type(v).__name__)
            same_val(v[()], n.v, w)
            same_val(ds[k], n.v, w + ' (datasets)')
            same_val(getattr(ds, k), n.v, w + ' (attribute access)')
            need(k in ds, '%s not in datasets', w)
            if not isinstance(n.v, bytes):
                need(v.shape == n.v.shape and v.ndim == n.v.ndim and
                     v.dtype == n.v.dtype, '%s: shape/dtype', w)
            cmp_attrs(v.attrs, n.attrs, w)
        else:
            need(k not in ds, '%s is a group but in datasets', w)
            o = outcome(lambda: ds[k])
            need(o[0] == 'err' and isinstance(o[1], KeyError),
                 '%s: reading a group as a dataset gives %r', w, o[1])
            if depth < 4 and not isinstance(g.c[k], RL):
                cmp_tree(tree, v, n, w + '/', depth + 1)
    for k in ('zz',):
        if k not in names:
            need(k not in impl and k not in ds, '%s: %s contained', what, k)
            o = outcome(lambda: impl[k])
            need(o[0] == 'err' and isinstance(o[1], KeyError),
                 '%s: missing key gives %r', what, o[1])
            o = outcome(getattr, ds, k)
            need(o[0] == 'err' and isinstance(o[1], AttributeError),
                 '%s: missing attribute gives %r', what, o[1])


def canon(tree, g=None, ids=None):
    g = tree.root if g is None else g

    def at(a):
        return tuple(sorted((k, str(getattr(v, 'dtype', '')),
                             str(np.shape(v)), str(np.asarray(v).tolist()))
                            for k, v in a.items()))
    out = []
    for k in sorted(g.c):
        n = g.c[k]
        if isinstance(n, RL):
            out.append((k, '->', n.path, isinstance(n, RX)))
        elif isinstance(n, RD):
            out.append((k, str(getattr(n.v, 'dtype', 'bytes')),
                        str(np.shape(n.v)), str(n.v), at(n.attrs)))
        else:
            out.append((k, canon(tree, n)))
    return (tuple(out), at(g.attrs))


_n = [0]


def mem_file():
    """A fresh in-memory file: nothing reaches the disk."""
    _n[0] += 1
    return h5.File.from_raw(h5py.File(f'mem{_n[0]}.h5', 'w', driver='core',
                                      backing_store=False))
