"""Memoisation and named parameter lists."""
import itertools

import numpy as np

from pyhipp.core.abc import HasCache, HasMultiCache
from pyhipp.astro.cosmology.param import Param, ParamList

from ..engine import Bfs, System, Tree
from ..util import need, outcome, eq

LEVEL = 'model_checking'
ASSUMPTIONS = ['parameters have float values']
BOUNDS = {'quick': 'cache histories of depth 5 over 2 keys (2x2 sub-keys), '
                   'parameter-list histories of depth 4',
          'thorough': 'depth 7 and 5'}


class Boom(Exception):
    pass


class Tok:
    """Distinct value objects, so that identity can be checked."""

    def __init__(self, n):
        self.n = n


class Caches(System):
    @staticmethod
    def inits():
        return ['single', 'multi']

    def __init__(self, init):
        self.kind = init
        self.c = HasCache() if init == 'single' else HasMultiCache()
        self.other = HasCache() if init == 'single' else HasMultiCache()
        self.r = {}
        self.calls = 0
        self.n = 0

    def canon(self):
        # only the kind of the cached value matters for the future
        return self.kind, tuple(sorted(
            (str(k), type(v).__name__) for k, v in self.r.items()))

    def ops(self):
        keys = ['k', ('t', 1)] if self.kind == 'single' else \
            [('a', 'x'), ('a', 'y'), ('b', 'x')]
        o = [('get', k, v) for k in keys
             for v in ('tok', 'none', 'zero', 'raise', 'nested')]
        if self.kind == 'single':
            o += [('put', k, v) for k in keys for v in ('tok', 'none')]
        return o

    def get(self, key, fb):
        if self.kind == 'single':
            return self.c.get_cache_or(key, fb)
        return self.c.get_cache_or(key[0], key[1], fb)

    def apply(self, op):
        key = tuple(op[1]) if isinstance(op[1], (list, tuple)) else op[1]
        self.n += 1
        tok = Tok(self.n)
        val = {'tok': tok, 'none': None, 'zero': 0, 'raise': None,
               'nested': tok}[op[2]]
        if op[0] == 'put':
            self.c.put_cache(key, val)
            self.r[key] = val
        else:
            calls = []
            okey = 'zz' if self.kind == 'single' else ('a', 'zz')

            def fb():
                calls.append(1)
                if op[2] == 'raise':
                    raise Boom()
                if op[2] == 'nested':
                    # a value computed from another cached value
                    x = self.get(okey, lambda: tok)
                    need(x is self.r.setdefault(okey, tok), 'nested lookup')
                    return x
                return val
            if op[2] == 'nested':
                val = self.r.get(okey, tok)
            o = outcome(self.get, key, fb)
            if key in self.r:
                need(o == ('ok', self.r[key]) and o[1] is self.r[key],
                     'cached value of %r not returned: %r', key, o[1])
                need(not calls, 'cached value of %r computed again', key)
            else:
                need(calls == [1], 'computed %d times', len(calls))
                if op[2] == 'raise':
                    need(o[0] == 'err' and isinstance(o[1], Boom),
                         'failure of the computation lost: %r', o[1])
                else:
                    need(o[0] == 'ok' and o[1] is val, 'result %r', o[1])
                    self.r[key] = val
        # every remembered value is still served, without computing
        for k, v in self.r.items():
            got = self.get(k, lambda: need(False, 'recomputed %r', k))
            need(got is v, 'cache of %r changed', k)
        # another owner has its own cache
        probe = []
        if self.kind == 'single':
            k = next(iter(self.r), 'k')
            self.other.get_cache_or(k, lambda: probe.append(1))
        else:
            k = next(iter(self.r), ('a', 'x'))
            self.other.get_cache_or(k[0], k[1], lambda: probe.append(1))
        need(len(self.other.cache) >= 1, 'cache not exposed')
        self.other.cache.clear()
        need(probe == [1], 'caches of two owners are shared')


NAMES = ['h', 'om', 's8', 'n']


class Params(System):
    @staticmethod
    def inits():
        return [0, 2, 3]

    def __init__(self, init):
        self.src = [np.array([.5, 1.5]), np.array(.3), np.array(.8)][:init]
        ps = [Param(self.src[i], NAMES[i]) for i in range(init)]
        self.objs = list(ps)
        self.p = ParamList(iter(ps) if init == 2 else ps)
        self.r = [[NAMES[i], self.src[i].copy()] for i in range(init)]
        self.extra = ps            # list handed in must not be aliased

    def canon(self):
        return tuple((n, str(v.tolist())) for n, v in self.r)

    def ops(self):
        n = len(self.r)
        o = []
        for i in list(range(n)) + ([-1] if n else []):
            o += [('set', i, m, v) for m in NAMES for v in (.1, .9)]
        o += [('values', .25), ('values', .75), ('short',), ('long',),
              ('one', 0, 2.5)]
        o += [('bad', n + 1)]
        return o

    def apply(self, op):
        p, r = self.p, self.r
        if op[0] == 'set':
            q = Param(op[3], op[2])
            p[op[1]] = q
            r[op[1]] = [op[2], np.array(op[3])]
            need(p[op[1]] is q, 'replaced parameter not stored')
        elif op[0] == 'values':
            new = [np.full_like(v, op[1] * (i + 1))
                   for i, (_, v) in enumerate(r)]
            arrs = [p[i].value for i in range(len(r))]
            p.set_values(new)
            for i in range(len(r)):
                need(p[i].value is arrs[i], 'values are set in place')
                r[i][1] = new[i].copy()
            for v in new:
                v[...] = -1.
        elif op[0] in ('short', 'long'):
            n = len(r) + (1 if op[0] == 'long' else -1)
            if n >= 0:
                need(outcome(p.set_values, [7.] * n)[0] == 'err',
                     '%d values accepted for %d parameters', n, len(r))
        elif op[0] == 'one':
            if r:
                p[op[1]].set_value(op[2])
                r[op[1]][1] = np.full_like(r[op[1]][1], op[2])
        elif op[0] == 'bad':
            need(outcome(lambda: p[op[1]])[0] == 'err', 'bad index accepted')
        self.observe()

    def observe(self):
        p, r = self.p, self.r
        need(len(p) == len(r), 'len %d, expected %d', len(p), len(r))
        it = list(p)
        need([q.name for q in it] == [n for n, _ in r], 'order/names %s',
             [q.name for q in it])
        vals = p.values
        need(type(vals) is tuple and len(vals) == len(r), 'values')
        for i, (n, v) in enumerate(r):
            eq(it[i].value, v, 'value by iteration')
            eq(vals[i], v, 'values')
            eq(p[i].value, v, 'value by index')
            eq(p[i - len(r)].value, v, 'value by negative index')
        names = [n for n, _ in r]
        for m in NAMES + ['nope']:
            o = outcome(lambda: p[m])
            if m in names:
                need(o[0] == 'ok' and o[1].name == m, 'by name %s: %r', m,
                     o[1])
                if names.count(m) == 1:
                    need(o[1] is it[names.index(m)], 'by name %s', m)
            else:
                need(o[0] == 'err' and isinstance(o[1], KeyError),
                     'unknown name %s gives %r', m, o[1])
        rep = p.to_simple_repr()
        need(rep == [{'name': n, 'value': v.tolist()} for n, v in r],
             'representation %s', rep)
        for s, w in zip(self.src, ([.5, 1.5], .3, .8)):
            eq(s, w, 'initial array of a parameter')
        if self.extra:
            need([x.name for x in self.extra] == NAMES[:len(self.extra)],
                 'list given to the constructor changed')


def name_body(ch):
    n = ch.pick([None, '', 'x', 5], 'name')
    v = ch.pick([1.5, [1., 2.], np.array([[3.]])], 'value')
    q = Param(v, n) if ch.flag('positional') else Param(value=v, name=n)
    need(q.name == ('Param' if n is None else str(n)), 'name %r', q.name)
    eq(q.value, v, 'value')
    if isinstance(v, np.ndarray):
        need(not np.shares_memory(q.value, v), 'value is not copied')
    r = q.to_simple_repr()
    need(r == {'name': q.name, 'value': np.array(v).tolist()}, 'repr %s', r)
    return (str(n), str(v))


def scenarios(tier):
    a, b = (5, 4) if tier == 'quick' else (7, 5)
    return [Tree('param', name_body), Bfs('caches', Caches, a, exact=2),
            Bfs('params', Params, b)]
