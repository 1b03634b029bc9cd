"""HDF5 attributes: histories."""

import numpy as np

from pyhipp.core import DataDict
from pyhipp.io import h5

from .. import h5vals
from ..engine import Bfs, System, Tree
from ..h5ref import mem_file, same_val
from ..util import need, outcome, eq

LEVEL = 'model_checking'
ASSUMPTIONS = ['HDF5 itself (h5py) is trusted',
               'writing text over numbers or numbers over text is not claimed',
               'overwriting with another shape may be refused, leaving the '
               'attribute as it was']
BOUNDS = {'quick': 'attribute histories of depth 3 over 2 names x 9 values x '
                   '5  on a file, a group and a dataset; 34 kinds of values '
                   '(byte orders, 0-d, empty, structured, text) x 5 ways to '
                   'write x all ways to read',
          'thorough': 'depth 4'}

V = {'i': 3, 'f': 2.5, 'a': np.array([1, 2, 3]),
     'b': np.array([.5, 1.5, -2.25]), 's': 'txt', 'S': 'other text',
     'u': np.array([7, 8], dtype='u1'), 'm': np.ones((2, 2)), 'l': [4, 5, 6]}
TEXT = {'s', 'S'}


def kind(v):
    return isinstance(v, (str, bytes))


class S(System):
    @staticmethod
    def inits():
        return ['file', 'group', 'dataset']

    def __init__(self, init):
        self.f = mem_file()
        self.f.create_group('g')
        self.f.datasets.create('d', np.arange(3))
        self.f.attrs.create('root', 1)
        self.o = {'file': self.f, 'group': self.f['g'],
                  'dataset': self.f['d']}[init]
        self.other = self.f['g'] if init != 'group' else self.f['d']
        self.init = init
        self.m = {} if init != 'file' else {'root': np.array(1)}

    def close(self):
        self.f.close()

    def canon(self):
        return (self.init, tuple(sorted(
            (k, str(np.asarray(v).dtype), str(np.shape(v)), str(v))
            for k, v in self.m.items())))

    def ops(self):
        out = []
        for k in ('x', 'y'):
            for v in V:
                for fl in ('x', 'ac'):
                    out.append(('create', k, v, fl))
                out.append(('set', k, v))
            out += [('create', k, 'f', 'ca'), ('create', k, 'i', 'w'),
                    ('create', k, 'i', None)]
            for fl, dt in (('x', 'f4'), ('ac', 'f8'), ('ca', 'i2'),
                           ('r', 'f8')):
                out.append(('empty', k, (2,), dt, fl))
            out.append(('empty', k, (), 'i4', 'ac'))
        for ks in ('x', 'xy'):
            for fl in ('x', 'ac', 'q'):
                out.append(('dump', ks, fl))
        return out

    def modify(self, o, k, v):
        """Result of writing v over the existing attribute k."""
        old = self.m[k]
        vv = V[v]
        if kind(old) != (v in TEXT):
            return self.resync(o, k)
        if v in TEXT:
            need(o[0] == 'ok', 'overwrite text: %r', o[1])
            self.m[k] = vv
            return
        new = np.asarray(vv)
        if new.shape == old.shape:
            need(o[0] == 'ok', 'overwrite attribute: %r', o[1])
            self.m[k] = new.astype(old.dtype)
        elif o[0] == 'ok':
            self.m[k] = np.broadcast_to(new, old.shape).astype(old.dtype) \
                if self.o.attrs[k].shape == old.shape else new
        # else: refused, unchanged

    def resync(self, o, k):
        a = self.o.attrs
        if k in a:
            v = a[k]
            self.m[k] = v if kind(v) else np.asarray(v)
        else:
            self.m.pop(k, None)

    def ve(self, o):
        need(o[0] == 'err' and isinstance(o[1], ValueError),
             'expected ValueError, got %r', o[1])

    def create(self, o, k, v, fl):
        if fl not in ('x', 'ac', 'ca'):
            return self.ve(o)
        if k in self.m:
            if fl == 'x':
                return self.ve(o)
            return self.modify(o, k, v)
        need(o[0] == 'ok', 'create attribute: %r', o[1])
        self.m[k] = V[v] if v in TEXT else np.array(V[v])

    def apply(self, op):
        a = self.o.attrs
        if op[0] == 'create':
            o = outcome(a.create, op[1], V[op[2]], flag=op[3])
            self.create(o, op[1], op[2], op[3])
        elif op[0] == 'set':
            o = outcome(a.__setitem__, op[1], V[op[2]])
            if op[1] not in self.m:
                need(o[0] == 'err' and isinstance(o[1], KeyError),
                     'assignment to a missing attribute gives %r', o[1])
            else:
                self.modify(o, op[1], op[2])
        elif op[0] == 'empty':
            _, k, sh, dt, fl = op
            o = outcome(a.create_empty, k, sh, np.dtype(dt), flag=fl)
            if fl not in ('x', 'ac', 'ca') or (k in self.m and fl == 'x'):
                self.ve(o)
            else:
                need(o[0] == 'ok', 'create_empty: %r', o[1])
                if k not in self.m:
                    got = np.asarray(a[k])
                    need(got.shape == sh and got.dtype == dt,
                         'empty attribute: %r', got)
                    # contents unspecified: fill it
                    a[k] = np.ones(sh, dtype=dt)
                    self.m[k] = np.ones(sh, dtype=dt)
        elif op[0] == 'dump':
            d = {k: V['i'] for k in op[1]}
            o = outcome(a.dump, d, flag=op[2])
            if op[2] == 'q':
                self.ve(o)
            elif op[2] == 'x' and any(k in self.m for k in d):
                self.ve(o)
                for k in d:
                    if k in self.m:
                        break
                    self.m[k] = np.array(3)
            else:
                bad = False
                for k in d:
                    if k not in self.m:
                        if not bad:
                            self.m[k] = np.array(3)
                    elif kind(self.m[k]) or np.shape(self.m[k]) != ():
                        for q in d:
                            self.resync(o, q)
                        break
                    else:
                        self.m[k] = np.array(3).astype(self.m[k].dtype)
        if not self.replaying:
            self.observe()

    def observe(self):
        a, m = self.o.attrs, self.m
        need(len(a) == len(m), 'len %d, expected %d', len(a), len(m))
        keys = a.keys()
        need(set(keys) == set(m) and len(keys) == len(m), 'keys %r', keys)
        its = list(a.items())
        vals = list(a.values())
        need([k for k, _ in its] == list(keys) and len(vals) == len(keys),
             'items')

        def same(got, want, what):
            if kind(want):
                need(got == want, '%s: %r, expected %r', what, got, want)
            else:
                same_val(got, want, what)
        for (k, v), v2 in zip(its, vals):
            for how, got in (('items', v), ('values', v2), ('[]', a[k]),
                             ('.', getattr(a, k)), ('()', a[(k,)][0])):
                same(got, m[k], f'{k} by {how}')
            need(k in a and k in dir(a), '%s not contained', k)
        if len(m) > 1:
            ks = sorted(m, reverse=True)
            got = a[tuple(ks)]
            need(type(got) is tuple and len(got) == len(ks), 'tuple read')
            for k, v in zip(ks, got):
                same(v, m[k], f'{k} by tuple')
        need('zz' not in a, 'zz contained')
        o = outcome(lambda: a['zz'])
        need(o[0] == 'err' and isinstance(o[1], KeyError), 'missing: %r',
             o[1])
        o = outcome(getattr, a, 'zz')
        need(o[0] == 'err' and isinstance(o[1], AttributeError),
             'missing: %r', o[1])
        for kw, want in ((dict(), set(m)),
                         (dict(key_re='[xr]'), {k for k in m if k[0] in 'xr'}),
                         (dict(keys=[k for k in 'yx' if k in m]),
                          {k for k in 'xy' if k in m}),
                         (dict(keys=[k for k in 'yx' if k in m], key_re='y'),
                          {k for k in 'y' if k in m}),
                         (dict(key_re='nothing'), set())):
            d = a.load(**kw)
            need(type(d) is DataDict and set(d.keys()) == want,
                 'load(%r) has %r', kw, list(d.keys()))
            for k in want:
                same(d[k], m[k], f'load {k}')
        if 'x' not in m:
            o = outcome(a.load, keys=['x'])
            need(o[0] == 'err' and isinstance(o[1], KeyError),
                 'load of a missing key: %r', o[1])
        want = '[' + ', '.join(f'{k}={a[k]}' for k in keys) + ']' if m else ''
        need(a.what() == want, 'listing %r, expected %r', a.what(), want)
        # nobody else got them
        o = self.other.attrs
        need(len(o) == 0, 'other object has attributes %r', o.keys())
        if self.init != 'file':
            need(list(self.f.attrs.keys()) == ['root'] and
                 self.f.attrs['root'] == 1, 'root attributes changed')
        need(set(self.f.keys()) == {'g', 'd'}, 'file members changed')
        eq(self.f['d'][()], np.arange(3), 'dataset')


def scenarios(tier):
    return [Bfs('attributes', S, 3 if tier == 'quick' else 4),
            Tree('values', lambda ch: h5vals.body(ch, 'attrs'))]
