"""Periodic boxes, polar directions, radial-tangential frames."""
import itertools
import math

import numpy as np

from pyhipp.core.dataproc.frame import PeriodicBox as PB, Polar

from .. import layout
from ..engine import Tree
from ..util import need, outcome, eq, close, Frozen

LEVEL = 'exploration'
RULE = ('every array of the position alphabet (box edges and their '
        'floating-point neighbours included) x mask x copy mode; distinct by '
        'the case')
ASSUMPTIONS = ['positions at most one box length outside of the box, '
               'separations below 1.5 box lengths',
               'the radial direction is not the z axis']
BOUNDS = {'quick': 'arrays of 1-3 of 11 positions, two boxes, all masks; 13 '
                   'x 13 angles; 3 positions x 27 vectors',
          'thorough': 'arrays of 1-4 positions'}
NX = 3
TINY = 5e-324


def pos(l):
    return [0., l / 4, l, -l, np.nextafter(l, 0), np.nextafter(l, 9e9),
            -TINY, l * 1.5, np.nextafter(2 * l, 0), -l / 3, -1e-17]


def arrays(ch, l, name='x'):
    n = ch.pick(list(range(1, NX + 1)), 'n')
    P = pos(l)
    if n <= 2:
        v = ch.many(P, n, name)
    else:
        s = ch.pick(list(range(len(P))), name)
        st = ch.pick([1, 4], 'step')
        v = [P[(s + st * i) % len(P)] for i in range(n)]
    return np.array(v)


def modular(v, w, l, tol):
    """v and w differ by a whole number of boxes."""
    k = round((v - w) / l)
    return abs(v - w - k * l) <= tol


def shift_body(ch):
    l = ch.pick([1., 12.5], 'l_box')
    x = arrays(ch, l)
    n = len(x)
    mask = ch.pick([None, 'all', 'none', 'first', 'last', 'True', 'False'],
                   'where')
    if mask in ('True', 'False'):
        # one answer for all of the entries
        b = mask == 'True'
        out = PB.shift_in(x, l, where=ch.pick([bool, np.bool_], 'type')(b))
        eq(out, PB.shift_in(x, l) if b else x, 'where=%s' % b)
        return (l, tuple(x.tolist()), mask)
    m = {None: None, 'all': np.ones(n, bool), 'none': np.zeros(n, bool),
         'first': np.arange(n) == 0, 'last': np.arange(n) == n - 1}[mask]
    copy = ch.pick([None, True, False], 'copy')
    two = ch.flag('2-d')
    a = np.stack([x, x[::-1]], axis=-1) if two else x.copy()
    w = m if m is None or not two else np.stack([m, m[::-1]], axis=-1)
    before = a.copy()
    kw = {} if copy is None else {'copy': copy}
    if m is not None:
        kw['where'] = w
    out = PB.shift_in(a, l, **kw)
    need(np.shares_memory(out, a) == (copy is False), 'copy=%s', copy)
    if copy is not False:
        eq(a, before, 'input')
    for i, v in np.ndenumerate(before):
        o = out[i]
        if w is not None and not w[i]:
            need(o == v, 'unselected entry %s changed to %s', v, o)
        else:
            need(0. <= o < l, 'shift_in(%r) = %r, box %s', v, o, l)
            need(modular(o, v, l, 1e-15 * l), 'shift_in(%r) = %r', v, o)
            if 0. <= v < l:
                need(o == v, 'moved %r to %r inside of the box', v, o)
    need(bool(PB.test_bound(out, l)) == bool(((out >= 0) & (out < l)).all()),
         'test_bound')
    need(bool(PB.test_bound(before, l)) == all(
        0 <= v < l for v in before.ravel()), 'test_bound of %s', before)
    if m is not None:
        need(bool(PB.test_bound(before, l, w)) == all(
            0 <= v < l for v in before[w]), 'masked test_bound')
    return (l, tuple(x.tolist()), mask, copy, two)


def shift_to_body(ch):
    l = ch.pick([1., 12.], 'l_box')
    P = [0., l / 4, l / 2, np.nextafter(l / 2, 0), np.nextafter(l, 0),
         -l / 4, 1.2 * l, np.nextafter(l / 2, l)]
    n = ch.pick([1, 2, 3], 'n')
    if n == 1:
        x = np.array([ch.pick(P, 'x')])
    else:
        s = ch.pick(list(range(len(P))), 'x')
        x = np.array([P[(s + 3 * i) % len(P)] for i in range(n)])
    how = ch.pick(['scalar', 'array'], 'reference')
    ref = ch.pick([0., l / 4, .3 * l, l / 2, np.nextafter(l, 0)], 'ref')
    r = ref if how == 'scalar' else np.array(
        [(ref + .25 * l * i) % l for i in range(n)])
    mask = ch.pick([None, 'first', 'last'], 'where')
    m = {None: None, 'first': np.arange(n) == 0,
         'last': np.arange(n) == n - 1}[mask]
    copy = ch.pick([None, True, False], 'copy')
    before = x.copy()
    fz = Frozen(**({} if how == 'scalar' else {'r': r}))
    kw = {} if copy is None else {'copy': copy}
    if m is not None:
        kw['where'] = m
    if np.any(np.abs(x - r) >= 1.5 * l):
        return None
    out = PB.shift_to(x, r, l, **kw)
    fz.check('shift_to')
    need(np.shares_memory(out, x) == (copy is False), 'copy=%s', copy)
    if copy is not False:
        eq(x, before, 'input')
    rr = np.broadcast_to(r, x.shape)
    for v, o, q, sel in zip(before, out, rr,
                            np.ones(n, bool) if m is None else m):
        if not sel:
            need(o == v, 'unselected entry changed')
            continue
        need(modular(o, v, l, 1e-14 * l), 'shift_to(%r) = %r', v, o)
        d = o - q
        need(-l / 2 * (1 + 1e-14) <= d <= l / 2 * (1 + 1e-14),
             'shift_to(%r, %r) = %r', v, q, o)
        if -l / 2 <= v - q < l / 2:
            need(o == v, 'moved %r to %r although it is nearest', v, o)
    return (l, tuple(before.tolist()), how, float(ref), mask, copy)


def int_body(ch):
    """Whole numbers: boxes given as integers, positions on a lattice."""
    l = ch.pick([1, 3, 4, 5, np.int64(5)], 'l_box')
    form = ch.pick(['float', 'int', 'f4'], 'positions')
    x = np.array(ch.many([-1, 0, 1, 2, 3], 2, 'x'))
    if form != 'int':
        x = (x * .5 * float(l)).astype('f8' if form == 'float' else 'f4')
    else:
        x = x * int(l) // 2
    ref = ch.pick([0, 1, .5, 'array'], 'ref')
    r = np.array([.5, 1.5]) if ref == 'array' else ref
    before = x.copy()
    out = PB.shift_in(x, l)
    for v, o in zip(before.tolist(), out.tolist()):
        need(o == v % l if v < 2 * l else o == v - l,
             'shift_in(%r) = %r, box %r', v, o, l)
    need(out.dtype == x.dtype, 'type %s', out.dtype)
    d = before - r
    if np.all(np.abs(d) < 1.5 * l):
        out = PB.shift_to(x, r, l)
        for v, o, q in zip(before.tolist(), out.tolist(),
                           np.broadcast_to(r, (2,)).tolist()):
            w = [v + k * int(l) for k in (-1, 0, 1)
                 if abs(v + k * int(l) - q) <= l / 2]
            need(o in w, 'shift_to(%r, %r) = %r, box %r', v, q, o, l)
            if abs(v - q) < l / 2:
                need(o == v, 'moved %r although it is nearest to %r', v, q)
    eq(x, before, 'input')
    return int(l), form, tuple(before.tolist()), str(ref)


def polar_body(ch):
    A = [i * math.pi / 6 for i in range(13)]
    t = ch.pick(A, 'theta')
    form = ch.pick(['scalar', 'array', '2d'], 'form')
    stack = ch.pick([None, True, False], 'stack')
    kw = {} if stack is None else {'stack': stack}
    ps = np.array(A) if form == 'array' else \
        np.array(A[:12]).reshape(3, 4) if form == '2d' else \
        ch.pick(A, 'phi')
    ts = t if form == 'scalar' else np.full(np.shape(ps), t)
    out = Polar.unit_vec_to_cart(ts, ps, **kw)
    c2 = Polar.unit_vec_to_cart_2d(ts, **kw)
    if stack is False:
        need(isinstance(out, tuple) and len(out) == 3 and
             isinstance(c2, tuple) and len(c2) == 2, 'tuple')
        out, c2 = np.stack(out, axis=-1), np.stack(c2, axis=-1)
    need(out.shape == np.shape(ps) + (3,), 'shape %s', out.shape)
    for i in np.ndindex(*np.shape(ps)):
        p = float(np.asarray(ps)[i])
        close(out[i], [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p),
                       math.cos(t)], 'direction', atol=1e-15)
        close(c2[i], [math.cos(t), math.sin(t)], '2-d direction',
              atol=1e-15)
    return (round(t, 6), form, stack, rnd_(ps))


def rnd_(p):
    return tuple(np.round(np.ravel(p), 6).tolist())


def frame_body(ch):
    xs = [[1., 0., 0.], [0., -2., 0.], [1., 2., -3.], [-.5, .5, 4.],
          [3., -1., 0.]]
    k = ch.pick([1, 2, 3], 'rows')
    idx = ch.many(list(range(len(xs))), k, 'x') if k < 3 else \
        [ch.pick(list(range(5)), 'x'), 2, 0]
    v = ch.many([0., 1., -2.], 3, 'v')
    form = ch.pick(['array', 'list', 'int'], 'form')
    x = [xs[i] for i in idx]
    vs = [[a + i * b for a, b in zip(v, (0., .5, 1.))] for i in range(k)]
    if form == 'int':
        x = [[int(2 * c) for c in r] for r in x]
    xa = x if form == 'list' else np.array(x)
    va = vs if form == 'list' else np.array(vs)
    fz = Frozen(**({} if form == 'list' else {'xa': xa, 'va': va}))
    out = Polar.rt_to_cart(xa, va)
    fz.check('rt_to_cart')
    for i in range(k):
        z = np.array(x[i], dtype=float)
        ex = np.array([-z[1], z[0], 0.])
        ey = np.array([z[1] * ex[2] - z[2] * ex[1],
                       z[2] * ex[0] - z[0] * ex[2],
                       z[0] * ex[1] - z[1] * ex[0]])
        b = [e / math.sqrt((e * e).sum()) for e in (ex, ey, z)]
        close(out[i], sum(c * e for c, e in zip(vs[i], b)), 'vector',
              atol=1e-12)
    close(np.linalg.norm(out, axis=-1), np.linalg.norm(vs, axis=-1),
          'length', atol=1e-12)
    return (tuple(idx), tuple(v), form)


def memory():
    x = np.array([[-.5, 3., 1.], [2.9, 0., 8.], [1., 1., -2.]])
    v = np.array([[1., 0., 2.], [-1., 3., .5], [0., 0., 1.]])
    s = x > 0
    return layout.tree({
        'in': (lambda a, b: PB.shift_in(a, 3., where=b), x, s),
        'to': (lambda a, b, c: PB.shift_to(a, b, 3., where=c), x, v, s),
        'inside': (lambda a, b: PB.test_bound(a, 3., where=b), x, s),
        'polar': (Polar.unit_vec_to_cart, x, v),
        'polar 2': (Polar.unit_vec_to_cart_2d, x),
        'frame': (Polar.rt_to_cart, x, v),
    })


def scenarios(tier):
    global NX
    NX = 3 if tier == 'quick' else 4
    return [Tree(f.__name__[:-5], f) for f in (
        shift_body, shift_to_body, int_body, polar_body, frame_body)] + [memory()]
