"""HDF5 tree: histories of creations, overwrites, links and deletions."""
import os
import shutil
import tempfile

import numpy as np

from pyhipp.core import DataDict
from pyhipp.io import h5

from .. import h5vals
from ..engine import Bfs, System, Tree as TreeScn
from ..h5ref import (RG, RD, RL, RX, Tree, Err, stored, same_val, cmp_tree,
                     cmp_load, as_dict, canon, mem_file, parts)
from ..util import need, outcome, eq

LEVEL = 'model_checking'
ASSUMPTIONS = ['HDF5 itself (h5py) is trusted',
               'in-memory files (core driver)',
               'behaviour on dangling links is not claimed']
BOUNDS = {'quick': 'BFS depth 2 over the wide menu (100+ operations) and 3 '
                   'over the core menu, from 3 initial files; 34 kinds of values '
                   'x 6 ways to write x all ways to read',
          'thorough': 'depth 3 and 4'}

V = {'i': np.array([1, 2, 3]), 'j': np.array([7, 8, 9]), 'f': 2.5,
     'm': np.array([[1., 2.], [3., 4.]]), 's': 'txt', 'S': 'other',
     'b': b'raw', 'e': np.zeros((0, 2)), 'f3': np.array([.5, 1.9, -2.7])}
NUM = {'i', 'j', 'f', 'm', 'e', 'f3'}


def isnum(v):
    return not isinstance(v, bytes)


class S(System):
    full = False

    @staticmethod
    def inits():
        return ['empty', 'tree', 'links']

    def __init__(self, init):
        self.f, self.t = mem_file(), Tree()
        self.dead = False
        if init != 'empty':
            g = self.f.create_group('a')
            g.attrs.create('u', 'Mpc')
            d = g.datasets.create('d', V['i'])
            d.attrs.create('n', np.array([1, 2]))
            self.f.datasets.create('b', 1.5)
            r = RG()
            r.attrs['u'] = 'Mpc'
            r.c['d'] = RD(V['i'].copy())
            r.c['d'].attrs['n'] = np.array([1, 2])
            self.t.root.c.update(a=r, b=RD(np.array(1.5)))
        if init == 'links':
            self.f.create_soft_link('l', 'a')
            self.f['a'].create_soft_link('m', '/b')
            self.t.root.c['l'] = RL('a')
            self.t.root.c['a'].c['m'] = RL('/b')

    def close(self):
        self.f.close()

    def canon(self):
        return (self.dead, canon(self.t))

    def ops(self):
        if self.dead:
            return []
        full = self.full
        ks = ['a', 'b', 'a/b/c', 'l/d'] + (['a/d', '/b', 'l'] if full else [])
        o = [('group', k, fl) for k in ks for fl in ('x', 'ac')]
        o += [('dset', k, v, fl) for k in ('a', 'b', 'l/d')
              for v, fl in (('i', 'x'), ('f', 'ac'), ('s', 'ac'),
                            ('f3', 'ac'))]
        o += [('dset', 'a/d', 'm', 'ac'), ('dset', 'c', 'b', 'x')]
        o += [('empty', k, fl) for k in ('b', 'c') for fl in ('x', 'ac')]
        o += [('set', k, v) for k in ('b', 'a/d') for v in ('j', 'f')]
        o += [('slice', 'a/d')]
        o += [('del', k) for k in ('a', 'b', 'a/d', 'l', 'a/m', 'c')]
        o += [('soft', 'l', 'a', 'x'), ('soft', 'l', 'a', 'ac'),
              ('soft', 'a/m', '/b', 'ca')]
        o += [('dump', '/', 0, 'x'), ('dump', '/', 0, 'ac'),
              ('dump', '/', 1, 'ac'), ('dump', 'a', 2, 'x'),
              ('dump', 'a', 2, 'ca'), ('dump', '/', 5, 'ac'),
              ('ddump', 'a', 'x'), ('ddump', 'a', 'ac'),
              ('attr', 'a', 'ac'), ('attr', 'b', 'x')]
        if full:
            o += [('group', 'a', 'ca'), ('group', 'a', 'w'),
                  ('group', 'c', 'a')]
            o += [('dset', k, v, fl) for k in ('a', 'b', 'a/d', 'l/d')
                  for v, fl in (('i', 'ac'), ('f', 'x'), ('s', 'x'),
                                ('f3', 'x'))]
            o += [('dset', 'b', 'm', 'ca'), ('dset', 'b', 'i', 'w'),
                  ('dset', 'a/b/c', 'e', 'x'), ('dset', 'a/m', 'f', 'ac')]
            o += [('empty', 'a/d', 'x'), ('empty', 'a/d', 'ca'),
                  ('empty', 'b', 'r'), ('empty', 'a', 'x')]
            o += [('set', k, v) for k in ('b', 'd', 'a/d', 'l')
                  for v in ('j', 'f', 'f3')]
            o += [('soft', 'l', 'a', 'q'), ('soft', 'a/m', '/b', 'x'),
                  ('soft', 'b', 'a', 'x'), ('soft', 'b', 'a', 'ac')]
            o += [('dump', w, n, fl) for w in ('/', 'a') for n in range(4)
                  for fl in ('x', 'ac')]
            o += [('dump', '/', 4, 'x'), ('dump', 'a', 6, 'ac'),
                  ('dump', '/', 0, 'q'), ('attr', 'a', 'x'),
                  ('attr', 'b', 'ac')]
        return o

    DUMPS = [
        {'b': V['i'], 'c': {'k': 's'}},
        {'a': {'d': V['j'], 'e': {'x': 1}}},
        {'d': V['j'], 'b': {'c': {}}},
        {},
        {'c': 1, 'bad': {'deep': [1, 2]}},      # rejected: a list
        {'c': 1, 'a': {3: 4}},                  # rejected: a key
        {'c': V['i'], 'n': None},               # rejected: None
    ]

    def path_target(self, key):
        """(parent exists/creatable, exists)"""
        return self.t.can_make(key), self.t.has(key)

    def apply(self, op):
        f, t, k = self.f, self.t, op[0]
        if k == 'group':
            key, fl = op[1], op[2]
            o = outcome(f.create_group, key, flag=fl)
            if fl not in ('x', 'ac', 'ca'):
                self.value_error(o)
            elif t.has(key):
                if fl == 'x' or not isinstance(t.lookup(key), RG):
                    self.value_error(o)
                else:
                    need(o[0] == 'ok' and isinstance(o[1], h5.Group),
                         'open existing group: %r', o[1])
                    need(set(o[1].keys()) == set(t.lookup(key).c),
                         'returned group is not the one asked for')
            elif not t.can_make(key):
                need(o[0] == 'err', 'group created below a dataset')
            else:
                need(o[0] == 'ok', 'create group: %r', o[1])
                g, n = t.parent(key)
                g.c[n] = RG()
                need(isinstance(o[1], h5.Group) and len(o[1]) == 0,
                     'returned object')
                o[1].attrs.create('mark', 1)
                need(f[key].attrs['mark'] == 1,
                     'returned group is not the created one')
                g.c[n].attrs['mark'] = np.array(1)
        elif k == 'dset':
            self.do_create(op[1], V[op[2]], op[3], op[2])
        elif k == 'empty':
            key, fl = op[1], op[2]
            o = outcome(f.datasets.create_empty, key, shape=(2,), dtype='f4',
                        flag=fl)
            if fl not in ('x', 'ac', 'ca'):
                self.value_error(o)
            elif t.has(key) and isinstance(t.lookup(key), RD):
                if fl == 'x':
                    self.value_error(o)
                else:
                    need(o[0] == 'ok', 'open existing: %r', o[1])
                    same_val(o[1][()], t.lookup(key).v, 'returned dataset')
            elif t.has(key) or not t.can_make(key):
                need(o[0] == 'err', 'created over a group')
            else:
                need(o[0] == 'ok', 'create_empty: %r', o[1])
                g, n = t.parent(key)
                need(o[1].shape == (2,) and o[1].dtype == np.dtype('f4'),
                     'returned dataset')
                o[1][...] = 3
                g.c[n] = RD(np.full(2, 3, dtype='f4'))
        elif k == 'set':
            key, v = op[1], V[op[2]]

            def fn():
                f.datasets[key] = v
            ok = t.has(key) and isinstance(t.lookup(key), RD)
            if ok and not isnum(t.lookup(key).v):
                return self.observe()       # text over numbers: not claimed
            o = outcome(fn)
            if not ok:
                need(o[0] == 'err' and isinstance(o[1], KeyError),
                     'set of a missing dataset: %r', o[1])
            else:
                self.inplace(o, t.lookup(key), v)
        elif k == 'slice':
            if t.has(op[1]) and isinstance(t.lookup(op[1]), RD):
                r = t.lookup(op[1])
                if isnum(r.v) and r.v.shape == (3,):
                    d = f[op[1]]
                    d[1:] = 0
                    r.v[1:] = 0
                    eq(d[::2], r.v[::2], 'partial read')
        elif k == 'del':
            key = op[1]

            def fn():
                del f[key]
            o = outcome(fn)
            if t.has(key):
                need(o[0] == 'ok', 'delete: %r', o[1])
                g, n = t.parent(key)
                del g.c[n]
                if t.dangling():
                    self.dead = True
                    return
            else:
                need(o[0] == 'err', 'deleted a missing key')
        elif k == 'soft':
            key, path, fl = op[1:]
            o = outcome(f.create_soft_link, key, path, flag=fl)
            if fl not in ('x', 'ac', 'ca'):
                self.value_error(o)
            elif t.has(key):
                if fl == 'x':
                    self.value_error(o)
                else:
                    need(o[0] == 'ok', 'existing link: %r', o[1])
            elif not t.can_make(key):
                need(o[0] == 'err', 'link below a dataset')
            elif o[0] == 'ok':
                g, n = t.parent(key)
                g.c[n] = RL(path)
                if t.dangling():
                    self.dead = True
                    return
            else:
                need(False, 'link: %r', o[1])
        elif k == 'dump':
            self.do_dump(op[1], self.DUMPS[op[2]], op[3], op[2] >= 4)
        elif k == 'ddump':
            if t.has(op[1]) and isinstance(t.lookup(op[1]), RG):
                d = {'p': V['i'], 'q': V['s']}
                g = t.lookup(op[1])
                o = outcome(f[op[1]].datasets.dump, d, flag=op[2])
                hit = any(x in g.c for x in d)
                if hit and op[2] == 'x':
                    self.value_error(o)
                else:
                    need(o[0] == 'ok', 'dump of datasets: %r', o[1])
                    for x in d:
                        g.c[x] = RD(stored(d[x]))
                    ld = f[op[1]].datasets.load()
                    need('p' in ld and ld['q'] == b'txt', 'load of datasets')
                    ld = f[op[1]].datasets.load(keys=['p'])
                    need(list(ld) == ['p'], 'load(keys)')
                    ld = f[op[1]].datasets.load(key_re='[pq]$')
                    need(set(ld) == {'p', 'q'}, 'load(key_re)')
                    need(type(f[op[1]].datasets['p', 'q']) is tuple,
                         'tuple read')
        elif k == 'attr':
            if t.has(op[1]):
                n = t.lookup(op[1])
                o = outcome(f[op[1]].attrs.create, 'z', 4, flag=op[2])
                if 'z' in n.attrs and op[2] == 'x':
                    self.value_error(o)
                else:
                    need(o[0] == 'ok', 'attribute: %r', o[1])
                    n.attrs['z'] = np.array(4)
        self.observe()

    def value_error(self, o):
        need(o[0] == 'err' and isinstance(o[1], ValueError),
             'expected ValueError, got %r', o[1])

    def inplace(self, o, r, v):
        w = r.v.copy()
        v = np.asarray(v)
        if v.shape == w.shape or (v.shape == () and w.size > 0):
            need(o[0] == 'ok', 'overwrite: %r', o[1])
            w[...] = v
            r.v = w
        else:
            need(o[0] == 'err', 'overwrite of shape %s by %s accepted',
                 w.shape, v.shape)

    def do_create(self, key, v, fl, name):
        f, t = self.f, self.t
        if fl in ('ac', 'ca') and t.has(key):
            n = t.lookup(key)
            if isinstance(n, RD) and isnum(n.v) != (name in NUM):
                return              # text over numbers: not claimed
        o = outcome(f.datasets.create, key, v, flag=fl)
        if fl not in ('x', 'ac', 'ca'):
            self.value_error(o)
        elif t.has(key):
            n = t.lookup(key)
            if fl == 'x' or not isinstance(n, RD):
                self.value_error(o)
            elif isnum(n.v):
                self.inplace(o, n, v)
                if o[0] == 'ok':
                    same_val(o[1][()], n.v, 'returned dataset')
            else:
                need(o[0] == 'ok', 'overwrite text: %r', o[1])
                n.v = stored(v)
        elif not t.can_make(key):
            need(o[0] == 'err', 'dataset created below a dataset')
        else:
            need(o[0] == 'ok', 'create dataset: %r', o[1])
            g, n = t.parent(key)
            g.c[n] = RD(stored(v))
            need(isinstance(o[1], h5.Dataset), 'returned object')
            same_val(o[1][()], g.c[n].v, 'returned dataset')

    def do_dump(self, where, d, fl, bad):
        f, t = self.f, self.t
        if not (t.has(where) and isinstance(t.lookup(where), RG)):
            return
        g = t.lookup(where)
        for as_dd in (DataDict, dict):
            pass

        def clash(g, d, top=True):
            """'no', 'err' or 'skip' for this dump."""
            res = 'no'
            for k, v in d.items():
                if k in g.c:
                    n = t.resolved(g, k)
                    if fl == 'x' or isinstance(v, dict) != isinstance(n, RG):
                        return 'err'
                    if isinstance(n, RG):
                        r = clash(n, v)
                        if r != 'no':
                            return r
                    else:
                        if isnum(n.v) != (not isinstance(v, (str, bytes))):
                            return 'skip'
                        if isnum(n.v) and np.shape(v) not in ((),
                                                              n.v.shape):
                            return 'err'
            return res
        what = 'err' if bad or fl not in ('x', 'ac', 'ca') and d else \
            clash(g, d)
        if what == 'skip':
            return
        before = canon(t)
        o = outcome(f[where].dump, d, flag=fl)
        if bad:
            need(o[0] == 'err' and isinstance(o[1], TypeError),
                 'unsupported data: %r', o[1])
            need(canon(t) == before, 'reference bug')
            return          # observe() checks that nothing changed
        if what == 'err':
            self.value_error(o) if fl == 'x' else need(
                o[0] == 'err', 'dump over an object of another kind')
            if fl == 'x':
                # nothing that existed may have changed
                self.subset(t.root, f)
            self.dead = True
            return
        need(o[0] == 'ok', 'dump: %r', o[1])

        def put(g, d):
            for k, v in d.items():
                if isinstance(v, dict):
                    if k not in g.c:
                        g.c[k] = RG()
                    put(t.resolved(g, k), v)
                elif k in g.c:
                    n = t.resolved(g, k)
                    if isnum(n.v):
                        n.v = n.v.copy()
                        n.v[...] = v
                    else:
                        n.v = stored(v)
                else:
                    g.c[k] = RD(stored(v))
        put(g, d)

    def subset(self, g, impl):
        for k in g.c:
            n = self.t.resolved(g, k)
            need(k in impl, 'existing object %s lost', k)
            if isinstance(n, RG):
                self.subset(n, impl[k])
            else:
                same_val(impl[k][()], n.v, 'existing dataset ' + k)

    def observe(self):
        if self.dead or self.replaying:
            return
        cmp_tree(self.t, self.f)
        cmp_load(self.f.load(), as_dict(self.t, self.t.root))
        for k in ('a', 'b', 'a/d', 'l/d', 'c', 'a/b/c'):
            need((k in self.f) == self.t.has(k), 'contains(%s)', k)
            o = outcome(lambda: self.f[k])
            if self.t.has(k):
                n = self.t.lookup(k)
                need(isinstance(o[1], h5.Group if isinstance(n, RG) else
                                h5.Dataset), 'lookup %s: %r', k, o[1])
            else:
                need(o[0] == 'err' and isinstance(o[1], KeyError),
                     'lookup of missing %s: %r', k, o[1])
        if self.t.has('a') and self.t.has('b'):
            o = self.f['a', 'b']
            need(type(o) is tuple and len(o) == 2, 'tuple lookup')


class Full(S):
    full = True


class Ext(System):
    """Links from one file on disk into another one."""

    @staticmethod
    def inits():
        return ['plain', 'linked']

    def __init__(self, init):
        self.d = tempfile.mkdtemp(prefix='mc-c10-')
        self.dead = False
        self.p1, self.p2 = (os.path.join(self.d, n) for n in ('1.h5', '2.h5'))
        self.t, self.t2 = Tree(), Tree()
        with h5.File(self.p2, 'x') as f:
            f.create_group('a').datasets.create('d', V['i'])
            f.datasets.create('b', 1.5)
        a = RG()
        a.c['d'] = RD(V['i'].copy())
        self.t2.root.c.update(a=a, b=RD(np.array(1.5)))
        with h5.File(self.p1, 'x') as f:
            f.create_group('g').datasets.create('own', V['f'])
        g = RG()
        g.c['own'] = RD(np.array(2.5))
        self.t.root.c['g'] = g
        if init == 'linked':
            with h5.File(self.p1, 'a') as f:
                f.create_external_link('e', self.p2, 'a')
            self.t.root.c['e'] = RX(self.t2, 'a')

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def canon(self):
        return self.dead, canon(self.t), canon(self.t2)

    def ops(self):
        if self.dead:
            return []
        o = [('link', k, p, fl) for k in ('e', 'g/e', 'g', 'new/e')
             for p in (None, '/', 'a', 'a/d', '/b') for fl in ('x', 'ac')]
        o += [('link', 'e', 'a', fl) for fl in ('ca', 'a', 'w', None, 'q')]
        o += [('write', k, fl) for k in ('e', 'g/e') for fl in ('x', 'ac')]
        o += [('over', k) for k in ('e', 'g/e')]
        o += [('del', k) for k in ('e', 'g/e', 'g')]
        o += [('soft', 's', 'e'), ('other', 'b'), ('other', 'a')]
        return o

    def apply(self, op):
        t, k = self.t, op[0]
        if k == 'other':        # through the target file itself
            with h5.File(self.p2, 'a') as f:
                if op[1] == 'b':
                    f.datasets.create('b', 7.5, flag='ac')
                    self.t2.root.c['b'].v = np.array(7.5)
                else:
                    f['a'].datasets.create('z', V['j'], flag='ac')
                    self.t2.root.c['a'].c['z'] = RD(V['j'].copy())
            return self.observe()
        with h5.File(self.p1, 'a') as f:
            if k == 'link':
                _, key, path, fl = op
                kw = {} if path is None else {'path': path}
                o = outcome(f.create_external_link, key, self.p2, flag=fl,
                            **kw)
                if fl not in ('x', 'ac', 'ca'):
                    need(o[0] == 'err' and isinstance(o[1], ValueError),
                         'flag %r gives %r', fl, o[1])
                elif t.has(key):
                    if fl == 'x':
                        need(o[0] == 'err' and isinstance(o[1], ValueError),
                             'existing %s, flag x: %r', key, o[1])
                    else:
                        need(o[0] == 'ok', 'existing %s: %r', key, o[1])
                elif not t.can_make(key):
                    need(o[0] == 'err', 'link below a dataset')
                else:
                    need(o[0] == 'ok', 'link: %r', o[1])
                    g, n = t.parent(key)
                    g.c[n] = RX(self.t2, path or '/')
            elif k == 'write':
                _, key, fl = op
                if t.has(key) and isinstance(t.lookup(key), RG):
                    g = t.lookup(key)
                    o = outcome(f[key].datasets.create, 'w', 4, flag=fl)
                    if fl == 'x' and 'w' in g.c:
                        need(o[0] == 'err' and isinstance(o[1], ValueError),
                             'existing dataset: %r', o[1])
                    else:
                        need(o[0] == 'ok', 'create below a link: %r', o[1])
                        g.c['w'] = RD(np.array(4))
            elif k == 'over':
                if t.has(op[1]) and isinstance(t.lookup(op[1]), RD):
                    n = t.lookup(op[1])
                    f.datasets[op[1]] = 3
                    n.v = n.v.copy()
                    n.v[...] = 3
            elif k == 'del':
                if t.has(op[1]):
                    del f[op[1]]
                    g, n = t.parent(op[1])
                    del g.c[n]
            elif k == 'soft':
                if t.has(op[2]) and not t.has(op[1]):
                    f.create_soft_link(op[1], op[2])
                    t.root.c[op[1]] = RL(op[2])
        if t.dangling():
            self.dead = True
            return
        self.observe()

    def observe(self):
        if self.dead or self.replaying:
            return
        with h5.File(self.p1) as f:
            cmp_tree(self.t, f)
            cmp_load(f.load(), as_dict(self.t, self.t.root))
            for k in ('e', 'g/e', 'e/d', 'e/a/d', 'g/e/d'):
                need((k in f) == self.t.has(k), 'contains(%s)', k)
                if self.t.has(k):
                    n = self.t.lookup(k)
                    if isinstance(n, RD):
                        same_val(f[k][()], n.v, k)
                        same_val(f.datasets[k], n.v, k)
                    else:
                        need(set(f[k].keys()) == set(n.c), 'keys of %s', k)
        with h5.File(self.p2) as f:
            cmp_tree(self.t2, f)


def scenarios(tier):
    q = tier == 'quick'
    return [Bfs('wide', Full, 2 if q else 3, exact=0), Bfs('deep', S, 3 if q else 4),
            Bfs('ext', Ext, 2 if q else 3, exact=0 if q else 1),
            TreeScn('values', lambda ch: h5vals.body(ch, 'datasets'))]
