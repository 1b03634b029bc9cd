"""Random source: draws, sharing, directions."""
import math

import numpy as np

from pyhipp.stats import Rng
from pyhipp.stats import random as m_random

from ..engine import Bfs, System, Tree
from ..util import need, outcome, eq, close, Frozen
from .c24 import Scripted

LEVEL = 'model_checking'
ASSUMPTIONS = ["NumPy's generators are trusted"]
BOUNDS = {'quick': 'all draw histories of depth 3 over 20 operations on two '
                   'sources and their aliases, from 6 ways to make them; all '
                   'directions on a grid of uniform outcomes',
          'thorough': 'depth 4'}
Jit = getattr(m_random, '_Rng', None)


def state(g):
    return str(g.bit_generator.state)


def polar(g, size):
    c = g.uniform(-1., 1., size=size)
    p = g.uniform(0., 2. * np.pi, size=size)
    return np.arccos(c), p


def cart(t, p):
    return (np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t))


ARR = np.arange(4) * 1.5


def shuffled(f):
    a = ARR.copy()
    f(a)
    return a


OPS = {
    'random': (lambda r: r.random(), lambda g: g.random()),
    'random3': (lambda r: r.random(3), lambda g: g.random(3)),
    'random22': (lambda r: r.random(size=(2, 2)), lambda g: g.random((2, 2))),
    'uniform': (lambda r: r.uniform(), lambda g: g.random()),
    'uniform2': (lambda r: r.uniform(-3., 5., 2), lambda g:
                 g.uniform(-3., 5., 2)),
    'stdn': (lambda r: r.standard_normal(), lambda g: g.standard_normal()),
    'stdn3': (lambda r: r.standard_normal(3), lambda g:
              g.standard_normal(3)),
    'normal': (lambda r: r.normal(2., .5, 3), lambda g:
               g.normal(2., .5, 3)),
    'choice': (lambda r: r.choice(5, size=3), lambda g: g.choice(5, size=3)),
    'choicea': (lambda r: r.choice(ARR, 2, replace=False),
                lambda g: g.choice(ARR, 2, replace=False)),
    'choicep': (lambda r: r.choice(3, 4, p=[.2, .5, .3]),
                lambda g: g.choice(3, 4, p=[.2, .5, .3])),
    'perm': (lambda r: r.permutation(4), lambda g: g.permutation(4)),
    'perma': (lambda r: r.permutation(ARR), lambda g: g.permutation(ARR)),
    'shuffle': (lambda r: shuffled(r.shuffle), lambda g:
                shuffled(g.shuffle)),
    'sphere': (lambda r: r.uniform_sphere(2), lambda g: np.stack(
        cart(*polar(g, 2)), axis=-1)),
    'sphere1': (lambda r: r.uniform_sphere(), lambda g: np.array(
        cart(*polar(g, None)))),
    'spheret': (lambda r: r.uniform_sphere(2, stack=False), lambda g:
                np.array(cart(*polar(g, 2)))),
    'spherep': (lambda r: r.uniform_sphere(2, cartesian=False), lambda g:
                np.stack(polar(g, 2), axis=-1)),
    'circle': (lambda r: r.uniform_circle(2), lambda g: (lambda t: np.stack(
        (np.cos(t), np.sin(t)), axis=-1))(g.uniform(0, 2 * np.pi, 2))),
    'circlet': (lambda r: r.uniform_circle((2, 2), cartesian=False),
                lambda g: g.uniform(0, 2 * np.pi, (2, 2))),
}
JOPS = {
    'random': (lambda r: r.random(), lambda g: g.random()),
    'random3': (lambda r: r.random(3), lambda g: g.random(3)),
    'uniform': (lambda r: r.uniform(-3., 5., 2), lambda g:
                g.uniform(-3., 5., 2)),
    'uniform0': (lambda r: r.uniform(), lambda g: g.uniform()),
    'stdn3': (lambda r: r.standard_normal(3), lambda g:
              g.standard_normal(3)),
    'normal': (lambda r: r.normal(2., .5, 3), lambda g:
               g.normal(2., .5, 3)),
    'normal0': (lambda r: r.normal(), lambda g: g.normal()),
    'lg0': (lambda r: r.lg_normal(), lambda g: 10**g.normal()),
    'lg': (lambda r: r.lg_normal(.5, .25, 3), lambda g:
           10**g.normal(.5, .25, 3)),
    'polar': (lambda r: np.array(r.uniform_sphere_polar(3)), lambda g:
              np.array(polar(g, 3))),
    'cart': (lambda r: np.array(r.uniform_sphere_cart(3)), lambda g:
             np.array(cart(*polar(g, 3)))),
}


class S(System):
    """Two sources; a third one that shares the state of the first."""

    @staticmethod
    def inits():
        return ['seed0', 'seed7', 'gen', 'rng', 'default'] + (
            ['jit'] if Jit is not None else [])

    def __init__(self, init):
        self.init = init
        self.menu = JOPS if init == 'jit' else OPS
        mk = {'seed0': lambda: (Rng(0), np.random.default_rng(0)),
              'seed7': lambda: (Rng(7), np.random.default_rng(7)),
              'default': lambda: (Rng(), np.random.default_rng(0)),
              'gen': lambda: (Rng(np.random.default_rng(5)),
                              np.random.default_rng(5)),
              'rng': lambda: (Rng(Rng(3)), np.random.default_rng(3)),
              'jit': lambda: (Jit(np.random.default_rng(4)),
                              np.random.default_rng(4))}[init]
        a, ga = mk()
        b, gb = mk()
        if init == 'jit':
            self.r = [a, b]
            self.g = [ga, gb]
        else:
            self.r = [a, b, Rng(a)]
            self.g = [ga, gb, ga]

    def ops(self):
        return [(k, i) for k in self.menu for i in range(len(self.r))]

    def canon(self):
        return (self.init, state(self.g[0]), state(self.g[1]))

    def apply(self, op):
        f, ref = self.menu[op[0]]
        got = f(self.r[op[1]])
        want = ref(self.g[op[1]])
        if op[0] == 'spheret':
            need(type(got) is tuple and len(got) == 3, 'tuple')
        close(np.asarray(got), want, op[0], rtol=1e-12)
        eq(ARR, np.arange(4) * 1.5, 'input array')


class Uni(Scripted):
    """uniform() answers are choices within [low, high)."""

    def uniform(self, low=0., high=1., size=None):
        eps = [0., .25, .5, .8, 1. - 2**-53]
        v, sh = self._draw(size, eps, 'u')
        self.log.append((low, high, tuple(v)))
        return np.array([low + (high - low) * u for u in v]).reshape(sh)

    def random(self, size=None, dtype=np.float64, out=None):
        return self.uniform(0., 1., size)


def sphere_body(ch):
    size = ch.pick([None, 1, 2, (1, 2)], 'size')
    what = ch.pick(['cart', 'tuple', 'polar', 'polart', 'circle', 'circlet'],
                   'what')
    r = Rng(Uni(ch))
    sh = () if size is None else (size,) if np.isscalar(size) else size
    if what in ('circle', 'circlet'):
        v = r.uniform_circle(size, stack=what == 'circle')
        if what == 'circlet':
            need(type(v) is tuple and len(v) == 2, 'tuple')
            v = np.stack(v, axis=-1)
        need(np.shape(v) == sh + (2,), 'shape %s', np.shape(v))
        close(np.linalg.norm(v, axis=-1), np.ones(sh), 'unit length')
    elif what in ('cart', 'tuple'):
        v = r.uniform_sphere(size, stack=what == 'cart')
        if what == 'tuple':
            need(type(v) is tuple and len(v) == 3, 'tuple')
            v = np.stack(v, axis=-1)
        need(np.shape(v) == sh + (3,), 'shape %s', np.shape(v))
        close(np.linalg.norm(v, axis=-1), np.ones(sh), 'unit length')
    else:
        v = r.uniform_sphere(size, stack=what == 'polar', cartesian=False)
        if what == 'polart':
            need(type(v) is tuple and len(v) == 2, 'tuple')
            v = np.stack(v, axis=-1)
        need(np.shape(v) == sh + (2,), 'shape %s', np.shape(v))
        t, p = v[..., 0], v[..., 1]
        need(np.all((t >= 0) & (t <= np.pi) & (p >= 0) & (p <= 2 * np.pi)),
             'angles %r', v)
    return (size, what, tuple(np.round(np.ravel(v), 9).tolist()))


def opt(ch, name, values):
    """An argument that may be left out."""
    v = ch.pick([None] + list(values), name)
    return {} if v is None else {name: v[0]}


MAT = np.arange(12.).reshape(4, 3)


def args_body(ch):
    """Every method with every subset of its arguments, by keyword or by
    position, against NumPy's generator."""
    what = ch.pick(['random', 'uniform', 'normal', 'stdn', 'choice',
                    'permutation', 'shuffle'], 'method')
    pos = ch.flag('positional')
    kw, a = {}, ()
    if what in ('random', 'stdn'):
        kw = opt(ch, 'size', [(3,), ((2, 2),), (None,)])
        m = 'standard_normal' if what == 'stdn' else what
    elif what in ('uniform', 'normal'):
        m = what
        n1, n2 = ('low', 'high') if what == 'uniform' else ('loc', 'scale')
        kw = opt(ch, n1, [(-3.,), (np.array([-1., .5]),)]) | opt(
            ch, n2, [(4.,), (np.array([1.5, 9.]),)]) | opt(
            ch, 'size', [(2,), ((3, 2),)])
    elif what == 'choice':
        m = what
        a = (ch.pick([6, 400, MAT, [3, 1, 4, 1, 5, 9]], 'a'),)
        kw = opt(ch, 'size', [(3,), ((2, 1),)]) | opt(
            ch, 'replace', [(True,), (False,)]) | opt(
            ch, 'axis', [(0,), (1,)]) | opt(
            ch, 'shuffle', [(True,), (False,)])
        if ch.flag('p'):
            n = a[0] if isinstance(a[0], int) else np.shape(a[0])[
                kw.get('axis', 0) if a[0] is MAT else 0]
            p = np.arange(1., n + 1)
            kw['p'] = p / p.sum()
        if not isinstance(a[0], np.ndarray) and kw.get('axis'):
            return None
    elif what == 'permutation':
        m = what
        a = (ch.pick([5, MAT, [3, 1, 4]], 'a'),)
        kw = opt(ch, 'axis', [(0,), (1,)])
        if a[0] is not MAT and kw.get('axis'):
            return None
    else:
        m = what
        kw = opt(ch, 'axis', [(0,), (1,)])
        a = (MAT.copy(),)
    g0, g = np.random.default_rng(9), np.random.default_rng(9)
    r = Rng(g0)
    order = {'choice': ['size', 'replace', 'p', 'axis', 'shuffle'],
             'uniform': ['low', 'high', 'size'],
             'normal': ['loc', 'scale', 'size']}.get(what, list(kw))
    rest, lead = dict(kw), []
    if pos:
        for k in order:
            if k not in rest:
                break
            lead.append(rest.pop(k))
    b = tuple(x.copy() if isinstance(x, np.ndarray) else x for x in a)
    for i in range(2):
        got = outcome(getattr(r, m), *a, *lead, **rest)
        want = outcome(getattr(g, m), *b, **kw)
        need(got[0] == want[0], '%s%s%s gives %s, NumPy %s', m, a, kw, got,
             want)
        if got[0] == 'ok':
            if m == 'shuffle':
                eq(a[0], b[0], 'shuffled')
            else:
                eq(np.asarray(got[1]), np.asarray(want[1]), f'{m} {kw}')
                need(type(got[1]) is type(want[1]), 'type')
        need(state(g0) == state(g), 'state after %s', m)
    eq(MAT, np.arange(12.).reshape(4, 3), 'input')
    return (what, pos, str(a), str(sorted(kw.items(), key=str)))


def seed_body(ch):
    bad = ch.pick(['x', 1.5, [1], {}], 'seed')
    need(outcome(Rng, bad)[0] == 'err', 'seed %r accepted', bad)
    seed = ch.pick([0, 1, 2**31, 2**32, 2**32 + 1, 2**63, 2**64 + 5, 10**30],
                   'seed value')
    eq(Rng(seed).random(3), np.random.default_rng(seed).random(3),
       f'draws with seed {seed}')
    a, b = Rng(None), Rng(None)
    need(a.random() != b.random(), 'unseeded sources agree')
    need(Rng(1).random() != Rng(2).random(), 'different seeds agree')
    return (str(bad), seed)


def warm():
    if Jit is not None:
        s = S('jit')
        for op in s.ops():
            s.apply(op)


def scenarios(tier):
    return [Tree('directions', sphere_body), Tree('seeds', seed_body),
            Tree('arguments', args_body),
            Bfs('draws', S, 3 if tier == 'quick' else 4)]
