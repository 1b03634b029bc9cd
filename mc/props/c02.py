"""Column table container."""
import copy
import pickle
from collections import OrderedDict

import numpy as np

from pyhipp.core import DataTable

from ..engine import Bfs, System, Tree
from ..util import need, outcome, eq

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'columns a,b,c of at most 4 rows, 1-D and 2-D, int/float/bool/str',
    'whether a no-copy result of fancy indexing shares memory is not claimed',
]
BOUNDS = {'quick': 'BFS depth 3 from 3 initial tables; ctor/selection/'
                   'stacking trees complete over their alphabets',
          'thorough': 'BFS depth 4'}

SEL = {
    'head': slice(0, 2), 'rev': slice(None, None, -1), 'none': slice(0, 0),
    'step': slice(None, None, 2), 'idx': [2, 0, 0], 'idx0': [], 'neg': [-1],
    'mask': 'mask', 'int': 1, 'nega': slice(-2, None), 'list': 'list',
    'lmask': 'lmask', 'nomask': 'nomask', 'u1': 'u1', 'npint': np.int8(-1),
    '2d': '2d',
}


def sel_arg(name, n):
    a = SEL[name]
    if name == 'mask':
        m = np.zeros(n, dtype=bool)
        m[::2] = True
        return m
    if name == 'lmask':
        return [j % 2 == 1 for j in range(n)]
    if name == 'nomask':
        return np.zeros(n, dtype=bool)
    if name == 'list':
        return [1, 0, 0]
    if name == 'u1':
        return np.array([2, 0], dtype='u1')
    if name == '2d':
        return np.array([[1, 0], [2, 2]])
    if isinstance(a, list):
        return np.array(a, dtype=int)
    return a


def cmp(t, r, what='table'):
    need(type(t) is DataTable, '%s: type %s', what, type(t).__name__)
    need(len(t) == len(r), '%s: len %d, expected %d', what, len(t), len(r))
    need(list(t) == list(r) == list(t.keys()), '%s: columns %s, expected %s',
         what, list(t), list(r))
    vs, its = list(t.values()), list(t.items())
    need(len(vs) == len(its) == len(r), '%s: view sizes', what)
    for k, v, it in zip(r, vs, its):
        need(isinstance(v, np.ndarray), '%s[%s] is a %s', what, k, type(v))
        need(it[0] == k and it[1] is v and t[k] is v,
             '%s: items/values/lookup disagree on %s', what, k)
        eq(v, r[k], f'{what}[{k}]', dtype=True)
        need(k in t, '%s: %s not contained', what, k)
        need(getattr(t, k) is v, '%s.%s is not the column', what, k)
    for k in ('a', 'b', 'c', 'zz'):
        need((k in t) == (k in r), '%s: contains(%s)', what, k)
        if k not in r:
            o = outcome(lambda: t[k])
            need(o[0] == 'err' and isinstance(o[1], KeyError),
                 '%s[%s]: expected KeyError, got %r', what, k, o[1])
            o = outcome(getattr, t, k)
            need(o[0] == 'err' and isinstance(o[1], AttributeError),
                 '%s.%s: expected AttributeError, got %r', what, k, o[1])
            need(t.get(k, 'd') == 'd', '%s.get default', what)


def copied(r):
    return OrderedDict((k, v.copy()) for k, v in r.items())


class S(System):
    @staticmethod
    def inits():
        return ['empty', 'abc', 'strided']

    def __init__(self, init):
        base = np.arange(8)
        self.src = [np.array([1, 2, 3]), np.array([.5, -1., 2.5]),
                    np.arange(6.).reshape(3, 2), base[1:7:2]]
        self.rsrc = [s.copy() for s in self.src]
        if init == 'empty':
            self.t, self.r = DataTable(), OrderedDict()
        elif init == 'abc':
            d = {'a': self.src[0], 'c': self.src[2], 'b': [True, False, True]}
            self.t = DataTable(d)
            self.r = OrderedDict((k, np.array(v)) for k, v in d.items())
        else:
            self.t = DataTable({'b': self.src[3], 'a': self.src[1][::-1]},
                               copy=False)
            self.r = OrderedDict(b=self.rsrc[3], a=self.rsrc[1][::-1])
        self.u, self.ru = None, None

    def canon(self):
        arrs = list(self.r.values()) + list((self.ru or {}).values()) \
            + self.rsrc
        share = tuple(
            (i, j) for i in range(len(arrs)) for j in range(i)
            if np.shares_memory(arrs[i], arrs[j]))

        def tab(r):
            return None if r is None else tuple(
                (k, str(v.dtype), v.shape, str(v.tolist()))
                for k, v in r.items())
        return tab(self.r), tab(self.ru), share, \
            tuple(str(s.tolist()) for s in self.rsrc)

    def ops(self):
        o = [('set', k, s) for k in 'abc' for s in (0, 1, 2)]
        o += [('setl', 'a'), ('setm', ('a', 'b'), (1, 0)),
              ('setm', ('c', 'a'), (2, 3)), ('setm', ('a', 'b'), (0,)),
              ('setm', (), ())]
        o += [('get', ('a', 'b')), ('get', ()), ('get', ('b', ('a', 'a')))]
        o += [('del', 'a'), ('del', 'c'), ('delm', ('a', 'b')), ('delm', ())]
        o += [('update', True), ('update', False), ('ior',), ('or',),
              ('copy',), ('deepcopy',), ('pickle',), ('swap',), ('clear',)]
        o += [('subset', s, c) for s in ('head', 'rev', 'mask', 'idx')
              for c in (True, False)]
        o += [('iloc', s) for s in ('head', 'mask', 'idx0')]
        o += [('subcol', ('b',), True), ('subcol', ('b', 'a'), False),
              ('subcol', (), True), ('subcol', ('a', 'zz'), True)]
        o += [('concat', 0), ('concat', 1), ('concat', 2)]
        o += [('poke', 'a'), ('poke', 'b'), ('pokeu', 'a'), ('pokesrc', 0),
              ('pokesrc', 1), ('pokesrc', 3)]
        o += [('todict', True), ('todict', False), ('stack',), ('pop', 'a'),
              ('setdefault', 'b')]
        return o

    def same_rows(self):
        n = {len(v) for v in self.r.values()}
        return len(n) <= 1 and all(v.ndim for v in self.r.values())

    def apply(self, op):
        t, r, k = self.t, self.r, op[0]
        if k == 'set':
            t[op[1]] = self.src[op[2]]
            r[op[1]] = self.rsrc[op[2]].copy()
        elif k == 'setl':
            t['a'] = [7, 8]
            r['a'] = np.array([7, 8])
        elif k == 'setm':
            def f():
                t[op[1]] = tuple(self.src[j] for j in op[2])
            o = outcome(f)
            if len(op[1]) != len(op[2]):
                need(o[0] == 'err', 'length mismatch accepted')
            else:
                need(o[0] == 'ok', 'multi-column set: %r', o[1])
                for c, j in zip(op[1], op[2]):
                    r[c] = self.rsrc[j].copy()
        elif k == 'get':
            o = outcome(lambda: t[op[1]])
            flat = [x for x in str(op[1]) if x in 'ab']
            if any(x not in r for x in flat):
                need(o[0] == 'err' and isinstance(o[1], KeyError),
                     'missing column: %r', o[1])
            else:
                need(o[0] == 'ok' and type(o[1]) is tuple, 'multi get: %r',
                     o[1])

                def chk(key, val):
                    if isinstance(key, tuple):
                        need(type(val) is tuple and len(val) == len(key),
                             'multi get shape')
                        for x, y in zip(key, val):
                            chk(x, y)
                    else:
                        need(val is t[key], 'multi get of %s', key)
                chk(op[1], o[1])
        elif k in ('del', 'delm'):
            ks = (op[1],) if k == 'del' else op[1]

            def f():
                del t[op[1]]
            if all(x in r for x in ks):
                f()
                for x in ks:
                    del r[x]
            elif k == 'del':
                o = outcome(f)
                need(o[0] == 'err' and isinstance(o[1], KeyError),
                     'delete of a missing column: %r', o[1])
            else:
                # what is left after a failed deletion is not claimed
                o = outcome(t.copy().__delitem__, op[1])
                need(o[0] == 'err' and isinstance(o[1], KeyError),
                     'delete of a missing column among others: %r', o[1])
        elif k in ('update', 'ior', 'or'):
            d = {'b': self.src[3], 'c': self.src[1]}
            if k == 'update':
                t.update(d, copy=op[1])
                r['b'], r['c'] = (self.rsrc[3].copy(), self.rsrc[1].copy()) \
                    if op[1] else (self.rsrc[3], self.rsrc[1])
            elif k == 'ior':
                tt = t
                tt |= d
                need(tt is t, '|= must keep the object')
                r['b'], r['c'] = self.rsrc[3].copy(), self.rsrc[1].copy()
            else:
                self.u = t | d
                self.ru = copied(r)
                self.ru['b'] = self.rsrc[3].copy()
                self.ru['c'] = self.rsrc[1].copy()
        elif k in ('copy', 'deepcopy', 'pickle'):
            self.u = {'copy': lambda: t.copy(),
                      'deepcopy': lambda: copy.deepcopy(t),
                      'pickle': lambda: pickle.loads(pickle.dumps(t))}[k]()
            self.ru = copied(r)
        elif k == 'swap':
            if self.u is not None:
                self.t, self.u, self.r, self.ru = self.u, t, self.ru, r
        elif k == 'clear':
            t.clear()
            r.clear()
        elif k in ('subset', 'iloc'):
            if self.same_rows() and all(len(v) >= 3 for v in r.values()):
                n = len(next(iter(r.values()))) if r else 3
                a = sel_arg(op[1], n)
                cp = True if k == 'iloc' else op[2]
                self.u = t.iloc[a] if k == 'iloc' else t.subset(a, copy=cp)
                self.ru = OrderedDict(
                    (c, np.array(v[a], copy=True if cp else None))
                    for c, v in r.items())
        elif k == 'subcol':
            o = outcome(lambda: t.subcol(op[1], copy=op[2]))
            if all(c in r for c in op[1]):
                need(o[0] == 'ok', 'subcol: %r', o[1])
                self.u = o[1]
                self.ru = OrderedDict(
                    (c, r[c].copy() if op[2] else r[c]) for c in op[1])
            else:
                need(o[0] == 'err' and isinstance(o[1], KeyError),
                     'subcol of a missing column: %r', o[1])
        elif k == 'concat':
            if self.u is not None or op[1] == 0:
                others = [self.u] * op[1]
                rothers = [self.ru] * op[1]
                ok = all(c in x and x[c].ndim == v.ndim
                         and x[c].shape[1:] == v.shape[1:]
                         for x in rothers for c, v in r.items())
                if ok:
                    new = t.concat(*others)
                    rnew = OrderedDict(
                        (c, np.concatenate([v] + [x[c] for x in rothers]))
                        for c, v in r.items())
                    if max([len(v) for v in rnew.values()] or [0]) <= 12:
                        cmp(t, r, 'receiver of concat')
                        self.u, self.ru = new, rnew
                elif any(c not in x for x in rothers for c in r):
                    need(outcome(lambda: t.concat(*others))[0] == 'err',
                         'concat with a missing column')
        elif k in ('poke', 'pokeu'):
            x, rx = (t, r) if k == 'poke' else (self.u, self.ru)
            if rx is not None and op[1] in rx and rx[op[1]].size:
                v = 5 if rx[op[1]].ravel()[0] != 5 else 0
                x[op[1]][0] = v
                rx[op[1]][0] = v
        elif k == 'pokesrc':
            v = 9 if self.rsrc[op[1]][0] != 9 else 4
            self.src[op[1]][0] = v
            self.rsrc[op[1]][0] = v
        elif k == 'todict':
            d = t.to_dict(copy=op[1])
            need(type(d) is dict and list(d) == list(r), 'to_dict keys')
            for c in r:
                eq(d[c], r[c], 'to_dict', dtype=True)
                need(np.shares_memory(d[c], t[c]) == (not op[1] and
                                                      r[c].size > 0),
                     'to_dict(copy=%s) memory of %s', op[1], c)
            d = t.to_dict_of_list()
            need(d == {c: v.tolist() for c, v in r.items()},
                 'to_dict_of_list %s', d)
            s = t.to_simple_repr()
            need(list(s) == list(r), 'simple repr')
        elif k == 'stack':
            if r and self.same_rows():
                eq(t.col_stacked(), np.column_stack(list(r.values())),
                   'col_stacked')
                if all(v.ndim == 1 for v in r.values()):
                    eq(t.row_stacked(), np.stack(list(r.values())),
                       'row_stacked')
        elif k == 'pop':
            o = outcome(lambda: t.pop(op[1]))
            if op[1] in r:
                need(o[0] == 'ok', 'pop: %r', o[1])
                eq(o[1], r.pop(op[1]), 'pop')
            else:
                need(isinstance(o[1], KeyError), 'pop: %r', o[1])
        elif k == 'setdefault':
            t.setdefault(op[1], self.src[0])
            if op[1] not in r:
                r[op[1]] = self.rsrc[0].copy()
        # whole observation
        cmp(self.t, self.r)
        if self.u is not None:
            cmp(self.u, self.ru, 'other')
        for i, (a, b) in enumerate(zip(self.src, self.rsrc)):
            eq(a, b, f'source array {i}', dtype=True)
        arrs = list(self.t.values()) + list(
            self.u.values() if self.u is not None else []) + self.src
        rarrs = list(self.r.values()) + list((self.ru or {}).values()) \
            + self.rsrc
        for i in range(len(arrs)):
            for j in range(i):
                need(np.shares_memory(arrs[i], arrs[j])
                     == np.shares_memory(rarrs[i], rarrs[j]),
                     'memory sharing of arrays %d,%d (columns, other table, '
                     'sources)', i, j)


VALS = {
    'int': [1, 2, 3, 4], 'float': [.5, float('nan'), 2., -1.],
    'bool': [True, False, True, True], 'str': ['x', 'yy', '', 'z'],
    '2d': [[1., 2.], [3., 4.], [5., 6.], [7., 8.]],
    'f4': np.array([1, 2, 3, 4], dtype='f4'),
    'i1': np.array([1, 2, 3, 4], dtype='i1'),
    'empty': [], 'scalar': 3, 'tuple': (1, 2, 3, 4),
    '3d': np.arange(16).reshape(4, 2, 2),
}


def ctor_body(ch):
    form = ch.pick(['dict', 'table', 'none', 'pairs', 'list'], 'form')
    if form == 'none':
        t = DataTable()
        t['a'] = [1]
        need(len(DataTable()) == 0, 'default argument shared')
        return 'none'
    names = ch.upto(sorted(VALS), 1, 2, 'cols')
    cp = ch.flag('copy')
    order = ch.flag('names in descending order')
    d = OrderedDict((f'k{9 - i if order else i}', VALS[n])
                    for i, n in enumerate(names))
    if form in ('pairs', 'list'):
        x = list(d.items()) if form == 'pairs' else list(d)
        need(outcome(lambda: DataTable(x, copy=cp))[0] == 'err',
             'non-mapping accepted')
        return form
    arg = dict(d) if form == 'dict' else DataTable(d)
    t = DataTable(arg, copy=cp)
    r = OrderedDict((k, np.array(v)) for k, v in d.items())
    cmp(t, r)
    for k in d:
        if isinstance(arg[k], np.ndarray) and arg[k].size:
            need(np.shares_memory(t[k], arg[k]) == (not cp),
                 'ctor(copy=%s) memory', cp)
    need(set(d) <= set(dir(t)) and 'concat' in dir(t), 'dir()')
    t['extra'] = 1
    need('extra' not in arg, 'ctor aliases its argument')
    need('extra' in dir(t), 'dir()')
    return (form, tuple(names), cp, order)


def select_body(ch):
    n = ch.pick([0, 1, 2, 3, 4], 'rows')
    names = ch.upto(['int', 'float', '2d', 'str', 'bool', '3d'], 1, 2, 'cols')
    how = ch.pick(sorted(SEL), 'sel')
    via = ch.pick(['subset', 'subset_nocopy', 'iloc'], 'via')
    r = OrderedDict((f'k{i}', np.array(VALS[m])[:n])
                    for i, m in enumerate(names))
    t = DataTable(r)
    a = sel_arg(how, n)
    f = {'subset': lambda: t.subset(a),
         'subset_nocopy': lambda: t.subset(a, copy=False),
         'iloc': lambda: t.iloc[a]}[via]
    try:
        w = OrderedDict((k, np.array(v[a])) for k, v in r.items())
    except IndexError:
        o = outcome(f)
        need(o[0] == 'err' and isinstance(o[1], IndexError),
             'out-of-range selection: %r', o[1])
        return ('IndexError', how, n)
    u = f()
    cmp(u, w, 'selection')
    cmp(t, r, 'receiver')
    if via != 'subset_nocopy':
        for k in u:
            need(not np.shares_memory(u[k], t[k]), 'selection shares memory')
    elif isinstance(a, slice):
        for k in u:
            need(u[k].size == 0 or np.shares_memory(u[k], t[k]),
                 'no-copy slice does not share memory')
    return (how, n, tuple(names), via)


def concat_body(ch):
    sizes = ch.upto([0, 1, 3], 1, 3, 'sizes')
    cols = ch.pick([('int',), ('float', 'int'), ('2d', 'bool'), ('str',),
                    ('f4', '3d')], 'cols')
    order = ch.flag('reverse column order of the others')
    tabs, rs, lo = [], [], 0
    for j, n in enumerate(sizes):
        r = OrderedDict((f'k{i}', np.array(VALS[m])[:n])
                        for i, m in enumerate(cols))
        items = list(r.items())
        if j and order:
            items = items[::-1]
        rs.append(r)
        tabs.append(DataTable(OrderedDict(items)))
    extra = ch.flag('extra column in others') and len(tabs) > 1
    if extra:
        tabs[-1]['extra'] = np.arange(sizes[-1])
    as_dict = ch.flag('others as plain dict')
    if len(tabs) > 1 and not extra and ch.flag('with itself'):
        # the same object may come again
        tabs, rs = [tabs[0]] + tabs[:-1], [rs[0]] + rs[:-1]
    others = [dict(t.items()) if as_dict else t for t in tabs[1:]]
    out = tabs[0].concat(*others)
    w = OrderedDict((k, np.concatenate([r[k] for r in rs])) for k in rs[0])
    cmp(out, w, 'concat')
    cmp(tabs[0], rs[0], 'receiver')
    for t in tabs:
        for k in out:
            need(not np.shares_memory(out[k], t[k]), 'concat shares memory')
    return (tuple(sizes), cols, order, extra)


def stack_body(ch):
    n = ch.pick([1, 2, 3, 4], 'rows')
    names = ch.upto(['int', 'float', 'f4', 'bool', '2d'], 1, 3, 'cols')
    r = [np.array(VALS[m])[:n] for m in names]
    t = DataTable({f'k{i}': v for i, v in enumerate(r)})
    cs = t.col_stacked()
    w = np.concatenate([v.reshape(n, -1).astype(float) for v in r], axis=1)
    eq(np.asarray(cs, dtype=float), w, 'col_stacked')
    o = outcome(t.row_stacked)
    if '2d' in names:
        # rows below rows, where the widths agree
        try:
            w = np.vstack(r)
        except ValueError:
            need(o[0] == 'err' and isinstance(o[1], ValueError),
                 'row_stacked of different widths: %r', o[1])
        else:
            need(o[0] == 'ok', 'row_stacked: %r', o[1])
            eq(o[1], w, 'row_stacked')
    else:
        rs = t.row_stacked()
        eq(np.asarray(rs, dtype=float),
           np.array([v.astype(float) for v in r]), 'row_stacked')
        eq(rs, cs.T, 'row_stacked is the transpose')
    return (n, tuple(names))


def scenarios(tier):
    return [Tree('ctor', ctor_body), Tree('select', select_body),
            Tree('concat', concat_body), Tree('stack', stack_body),
            Bfs('histories', S, 3 if tier == 'quick' else 4)]
