"""Sorted search and interpolation."""
import bisect
import math

import numpy as np

from pyhipp.numerical import interpolate as I

from .. import layout
from ..engine import Tree
from ..util import need, outcome, eq, close, Frozen

LEVEL = 'exploration'
RULE = ('every node list of the alphabet x every query (each node, its two '
        'floating-point neighbours, midpoints, quarter points, far outside); '
        'distinct by the case')
ASSUMPTIONS = ['finite or infinite queries', 'a query equally far from two '
               'nodes may be given either']
BOUNDS = {'quick': '1-5 nodes out of 6 values', 'thorough': '1-7 nodes'}
NX = 5
XS = [-2., 0., .5, 1.5, 7., 1e6]
YS = [3., -1., 4., 4., 10., -6., 2.5]


def queries(x):
    q = []
    for i, v in enumerate(x):
        q += [v, np.nextafter(v, 1e300), np.nextafter(v, -1e300)]
        if i + 1 < len(x):
            d = x[i + 1] - v
            q += [v + .25 * d, v + .5 * d, v + .8 * d]
    q += [x[0] - 1., x[0] - 1e9, x[-1] + 1., x[-1] + 1e12]
    return [float(v) for v in q]


def nodes(ch, ties, lo=1):
    n = ch.pick(list(range(lo, NX + 1)), 'n')
    if ties:
        x = sorted(ch.many(XS[:5], n, 'x')) if n <= 3 else \
            sorted(XS[:n - 2 if n - 2 <= 6 else 6] + [0., 1.5])[:n]
    else:
        x = ch.subset(XS, 'x') if n == lo else None
        if x is None:
            # cut a window out of a wider list
            s = ch.pick([0, 1, 2], 'first')
            x = sorted(XS + [3.25, -9., 2.])[s:s + n]
        if not len(x) >= lo:
            return None
    return x


def arr(ch, v, what):
    how = ch.pick(['array', 'strided'], f'{what} layout')
    if how == 'array':
        return np.array(v)
    b = np.full((len(v), 2), -77.)
    b[:, 1] = v
    return b[:, 1]


def search_body(ch):
    x = nodes(ch, True)
    kind = ch.pick(['float', 'int', 'strided'], 'type')
    if kind == 'int':
        x = sorted(int(v * 2) for v in x)
        a = np.array(x, dtype=np.int64)
    elif kind == 'float':
        a = np.array(x)
    else:
        a = arr_strided(x)
    fz = Frozen(a=a)
    qs = queries([float(v) for v in x]) + [math.inf, -math.inf]
    near = []
    for q in qs:
        got = I.bisearch(a, q)
        want = bisect.bisect_right(x, q) - 1
        need(int(got) == want, 'bisearch(%s, %r) = %s, expected %s', x, q,
             got, want)
        k = I.bisearch_nearest(a, q)
        near.append(int(k))
        need(0 <= k < len(x), 'nearest index %s', k)
        if math.isfinite(q):
            d = min(abs(q - v) for v in x)
            need(abs(q - x[k]) == d, 'bisearch_nearest(%s, %r) = %s', x, q, k)
        else:
            need(x[k] == (x[-1] if q > 0 else x[0]), 'nearest to infinity')
    v = I.bisearch_nearest_array(a, np.array(qs))
    eq(v, near, 'bisearch_nearest_array')
    need(I.bisearch_nearest_array(a, np.array([])).size == 0, 'no queries')
    fz.check('search')
    return (tuple(x), kind)


def large_body(ch):
    """Tables longer than small integers can count."""
    n = ch.pick([300, 40000, 70000], 'n')
    x = np.arange(n) * 2. - 5.
    i = np.array([0, 1, 126, 127, 128, 254, 255, 256, n // 2, 32767, 32768,
                  65535, 65536, n - 2, n - 1])
    i = i[i < n]
    for d in (-.75, 0., .75):
        q = x[i] + d
        eq(I.bisearch_nearest_array(x, q), i, 'nearest')
        eq([I.bisearch(x, v) for v in q], i - (d < 0), 'interval')
        eq([I.bisearch_nearest(x, v) for v in q], i, 'nearest')
        y = x * 3. - 1.
        close([I.bisearch_interp(x, y, v) for v in q],
              np.clip(q, x[0], x[-1]) * 3. - 1., 'interp')
    # many queries
    q = np.repeat(x, 2)
    eq(I.bisearch_nearest_array(x, q), np.repeat(np.arange(n), 2),
       'nearest of many')
    return n


def arr_strided(v):
    b = np.full((len(v), 2), -77.)
    b[:, 1] = v
    return b[:, 1]


def ref_interp(x, y, q):
    if q <= x[0]:
        return y[0]
    if q >= x[-1]:
        return y[-1]
    i = bisect.bisect_right(x, q) - 1
    t = (q - x[i]) / (x[i + 1] - x[i])
    return y[i] + t * (y[i + 1] - y[i])


def interp_body(ch):
    x = nodes(ch, False)
    if not x:
        return None
    n = len(x)
    s = ch.pick([0, 1, 3], 'values')
    y = (YS + YS)[s:s + n]
    a, b = arr(ch, x, 'x'), arr(ch, y, 'y')
    y2 = np.array([[v, 2 * v - 1] for v in y])
    fz = Frozen(a=a, b=b, y2=y2)
    scale = max(abs(v) for v in y) + 1
    for q in queries(x):
        l, r, wl, wr = I.bisearch_interp_weight(a, q)
        need(0 <= l <= r < n and r - l <= 1, 'nodes %s %s', l, r)
        need(-1e-12 <= wl <= 1 + 1e-12 and abs(wl + wr - 1) < 1e-12,
             'weights %s %s', wl, wr)
        if x[0] <= q <= x[-1]:
            need(x[l] <= q <= x[r] or q == x[l], 'nodes %s %s for %s', l, r,
                 q)
            close(wl * x[l] + wr * x[r], q, 'weighted nodes', rtol=1e-9,
                  atol=1e-9)
        want = ref_interp(x, y, q)
        close(I.bisearch_interp(a, b, q), want, f'interp at {q}',
              atol=1e-9 * scale)
        close(I.bisearch_interp(a, y2, q), [want, 2 * want - 1],
              f'vector interp at {q}', atol=1e-9 * scale)
        w2 = -55. if q < x[0] else 66. if q > x[-1] else want
        close(I.bisearch_interp_fix_oob(a, b, q, -55., 66.), w2,
              f'interp with fill at {q}', atol=1e-9 * scale)
    for i in range(n):
        need(float(I.bisearch_interp(a, b, x[i])) == y[i], 'not exact at a '
             'node')
    fz.check('interp')
    return (tuple(x), s)


def weight_body(ch):
    l = ch.pick([-3., 0., 1e5], 'left')
    d = ch.pick([.5, 1., 1e3], 'width')
    t = ch.pick([0., .25, .5, 1.], 't')
    wl, wr = I.linear_interp_weight(l + t * d, l, l + d)
    close([wl, wr], [1 - t, t], 'weights')
    return (l, d, t)


def interp2_body(ch):
    n1 = ch.pick([1, 2, 3, 4], 'n1')
    n2 = ch.pick([1, 2, 3], 'n2')
    extra = ch.flag('vector values')
    x1, x2 = XS[:n1], [-4., 1., 2.5][:n2]
    y = [[((i * 3 + j * j * 2) % 7) - 2.5 for j in range(n2)]
         for i in range(n1)]
    a, b = arr(ch, x1, 'x1'), arr(ch, x2, 'x2')
    ya = np.array(y)
    if extra:
        ya = np.stack([ya, 1 - ya], axis=-1)
    fz = Frozen(a=a, b=b, ya=ya)
    for p in queries(x1):
        row = [ref_interp(x1, [y[i][j] for i in range(n1)], p)
               for j in range(n2)]
        for q in queries(x2):
            want = ref_interp(x2, row, q)
            close(I.bisearch_interp_2d(a, b, ya, p, q),
                  [want, 1 - want] if extra else want,
                  f'bilinear at {p}, {q}', atol=1e-8)
    fz.check('interp_2d')
    return (n1, n2, extra)


def linear_body(ch):
    x = nodes(ch, False, 2)
    if not x:
        return None
    n = len(x)
    s = ch.pick([0, 1, 3], 'values')
    y = (YS + YS)[s:s + n]
    a, b = arr(ch, x, 'x'), arr(ch, y, 'y')
    fz = Frozen(a=a, b=b)
    check = ch.pick([None, True, False], 'check')
    f = I.Linear(a, b) if check is None else I.Linear(a, b, check)
    for q in queries(x):
        close(f.value_at(q), ref_interp(x, y, q), f'value at {q}', atol=1e-8)
    d = f.derivative()
    sl = [(y[min(i + 1, n - 1)] - y[max(i - 1, 0)])
          / (x[min(i + 1, n - 1)] - x[max(i - 1, 0)]) for i in range(n)]
    for q in queries(x):
        close(d.value_at(q), ref_interp(x, sl, q), f'slope at {q}',
              atol=1e-8)
    for q in queries(x):
        close(f.value_at(q), ref_interp(x, y, q), f'value at {q} after '
              'derivative()', atol=1e-8)
    fz.check('Linear')
    return (tuple(x), s, check)


def reject_body(ch):
    case = ch.pick(['one node', 'tie', 'unsorted', 'descending', 'lengths'],
                   'case')
    x = {'one node': [1.], 'tie': [0., 1., 1.], 'unsorted': [0., 2., 1.],
         'descending': [3., 2., 1.], 'lengths': [0., 1., 2.]}[case]
    y = [0.] * (2 if case == 'lengths' else len(x))
    o = outcome(I.Linear, np.array(x), np.array(y))
    need(o[0] == 'err', 'accepted %s', case)
    return case


def warm():
    from ..engine import run_leaf
    for f in (search_body, interp_body, weight_body, interp2_body,
              linear_body):
        for last in (0, 1):
            run_leaf(f, [])
    for kind in (np.array([1, 2]), np.array([1., 2.]), arr_strided([1., 2.])):
        I.bisearch(kind, 1.)
        I.bisearch_nearest(kind, 1.)
        I.bisearch_nearest_array(kind, np.array([1.]))
    s = arr_strided([1., 2.])
    c = np.array([1., 2.])
    y2 = np.ones((2, 2))
    for a in (s, c):
        I.bisearch_interp_weight(a, 1.)
        for b in (s, c):
            for y in (b, y2):
                I.bisearch_interp(a, y, 1.)
            I.bisearch_interp_fix_oob(a, b, 1., -55., 66.)
            I.bisearch_interp_2d(a, b, y2, 1., 1.)
            I.bisearch_interp_2d(a, b, np.ones((2, 2, 2)), 1., 1.)
    I.Linear(c, c).derivative().value_at(1.)


def memory():
    x = np.array([0., 1., 2.5, 7.])
    y = np.array([3., -1., 4., 1.5])
    v = np.array([-1., 0., .3, 2.5, 5., 7., 9.])
    z = np.arange(16.).reshape(4, 4)**1.5
    return layout.tree({
        'search': (lambda a: [I.bisearch(a, t) for t in v.tolist()], x),
        'nearest': (I.bisearch_nearest_array, x, v),
        'interp': (lambda a, b: [I.bisearch_interp(a, b, t)
                                 for t in v.tolist()], x, y),
        'interp2': (lambda a, b: [I.bisearch_interp_2d(a, a, b, t, .7)
                                  for t in v.tolist()], x, z),
        'linear': (lambda a, b: [I.Linear(a, b).value_at(t)
                                 for t in v.tolist()], x, y),
        'slope': (lambda a, b: [I.Linear(a, b).derivative().value_at(t)
                                for t in v.tolist()], x, y),
    }, jit=('strided', 'part of a larger array'))


def scenarios(tier):
    global NX
    NX = 5 if tier == 'quick' else 7
    return [Tree(f.__name__[:-5], f) for f in (
        search_body, interp_body, weight_body, interp2_body, linear_body,
        large_body, reject_body)] + [memory()]
