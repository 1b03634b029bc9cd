"""Bin and grid location."""
import bisect
import itertools

import numpy as np

from pyhipp.core.dataproc import Grid1d, GridMd
from pyhipp.stats import BiSearchBins, EqualSpaceBins

from .. import layout
from ..engine import Tree
from ..util import need, outcome, eq, close, Frozen

LEVEL = 'exploration'
RULE = ('every (edges, query vector) over the stated alphabet; queries include '
        'every edge, both neighbours in floating point, midpoints, points far '
        'outside and infinities; distinct by (edges, answers)')
ASSUMPTIONS = ['the edges of equal-spaced bins are the reported ones, which '
               'agree with lo + i (hi - lo) / n up to rounding',
               'NaN queries are not claimed']
BOUNDS = {'quick': 'up to 4 edges from a 7-value alphabet incl. ties; '
                   'equal-spaced bins with 1..12 bins; large n = 1000',
          'thorough': 'up to 5 edges, 1..40 bins'}
TIER = 'quick'
INF = float('inf')
EDGES = [-3., -1., 0., .1, .5, 2., 1e6]


def ref(edges, v):
    return bisect.bisect_right(edges, v) - 1


def queries(edges):
    q = [-INF, INF, -1e300, 1e300, edges[0] - 1., edges[-1] + 1.]
    for e in edges:
        q += [e, np.nextafter(e, -INF), np.nextafter(e, INF)]
    for a, b in zip(edges[:-1], edges[1:]):
        q += [.5 * (a + b), a + .25 * (b - a), a + .75 * (b - a)]
    return [float(v) for v in q]


def edges_of(ch, lo):
    n = ch.pick(list(range(lo, 5 if TIER == 'quick' else 6)), 'n_edges')
    combos = list(itertools.combinations_with_replacement(EDGES, n))
    if TIER == 'quick' and n == 4:
        combos = [c for c in combos if len(set(c)) >= 3]
    return list(ch.pick(combos, 'edges'))


def nearest_ok(edges, v, i):
    d = [abs(v - e) for e in edges]
    return 0 <= i < len(edges) and d[i] == min(d)


def bins_body(ch):
    edges = edges_of(ch, 2)
    order = ch.pick(['sorted', 'reversed', 'rotated'], 'given order')
    given = {'sorted': edges, 'reversed': edges[::-1],
             'rotated': edges[1:] + edges[:1]}[order]
    arg = np.array(given) if ch.flag('as array') else given
    b = BiSearchBins(arg)
    check_bins(b, edges)
    if isinstance(arg, np.ndarray):
        eq(arg, given, 'BiSearchBins input')
    return (tuple(edges), order)


def check_bins(b, edges):
    n = len(edges) - 1
    need(b.n_bins == n, 'n_bins %s, expected %s', b.n_bins, n)
    close(b.x_edges, edges, 'edges', rtol=1e-12)
    edges = [float(e) for e in b.x_edges]
    need(all(x <= y for x, y in zip(edges, edges[1:])), 'edges %s', edges)
    close(b.x_centers, [.5 * (x + y) for x, y in zip(edges, edges[1:])],
          'centers', rtol=1e-12)
    q = queries(edges)
    a = np.array(q)
    fz = Frozen(a=a)
    got = b.locate(a)
    need(np.asarray(got).shape == a.shape and
         np.asarray(got).dtype.kind == 'i', 'locate gives %s', got)
    for v, g in zip(q, got.tolist()):
        w = ref(edges, v)
        need(g == w, 'locate(%r) = %s, expected %s; edges %s', v, g, w, edges)
    fin = np.array([v for v in q if np.isfinite(v)])
    for up, lo in itertools.product((True, False), repeat=2):
        g = b.locate_bound(a, lower=lo, upper=up)
        w = np.array(b.locate(a))
        if lo:
            w = np.maximum(w, 0)
        if up:
            w = np.minimum(w, n - 1)
        eq(g, w, f'locate_bound(lower={lo}, upper={up})')
    eq(b.locate_bound(a), b.locate_bound(a, lower=True, upper=True),
       'locate_bound defaults')
    g = b.locate_nearest(fin)
    need(g.shape == fin.shape, 'locate_nearest shape')
    for v, i in zip(fin.tolist(), np.asarray(g).tolist()):
        if abs(v) > 1e100:
            need(i == (0 if v < 0 else n) or edges[0] == edges[-1] or
                 nearest_ok(edges, v, i), 'nearest(%r) = %s', v, i)
            continue
        d = [abs(v - e) for e in edges]
        need(0 <= i <= n and d[i] <= min(d) + 1e-12 * (1. + abs(v)),
             'nearest edge of %r is %s (distance %s), expected %s', v, i,
             d[i] if 0 <= i <= n else None, min(d))
    # 2-D and empty queries
    eq(b.locate(a[:6].reshape(2, 3)), b.locate(a)[:6].reshape(2, 3),
       '2-D query')
    need(b.locate(a[:0]).shape == (0,), 'empty query')
    # asking does not change the answers
    b.x_centers
    eq(b.locate(a), got, 'second query')
    fz.check('locate')


def equal_body(ch):
    ns = list(range(1, 13)) + [1000] if TIER == 'quick' else \
        list(range(1, 41)) + [1000]
    n = ch.pick(ns, 'n_bins')
    lo, hi = ch.pick([(0., 1.), (-1., 3.), (0., .3), (10., 10.5),
                      (-1e3, 1e-3), (0, 4), (-7., -2.)], 'range')
    b = EqualSpaceBins((lo, hi), n)
    edges = [lo + (hi - lo) * (i / n) for i in range(n)] + [float(hi)]
    check_bins(b, [float(e) for e in edges])
    # single values and single precision
    q = queries([float(e) for e in b.x_edges])[:40]
    for v in q:
        need(int(b.locate(v)) == ref(b.x_edges.tolist(), v),
             'locate of the single %r', v)
    q = np.array(q).astype('f4')
    eq(b.locate(q), [ref(b.x_edges.tolist(), float(v)) for v in q],
       'single precision')
    need(tuple(b.x_range) == (lo, hi), 'x_range')
    close(b.x_span, hi - lo, 'span')
    close(b.x_step, (hi - lo) / n, 'step')
    return (n, lo, hi)


def equal_ctor_body(ch):
    lo, hi = ch.pick([(0., 1.), (1., 1.), (2., 1.)], 'range')
    n = ch.pick([-1, 0, 1, 3], 'n')
    o = outcome(lambda: EqualSpaceBins((lo, hi), n))
    need((o[0] == 'ok') == (lo < hi and n > 0),
         'EqualSpaceBins((%s, %s), %s): %r', lo, hi, n, o[1])
    d = EqualSpaceBins()
    need(d.n_bins == 10 and tuple(d.x_range) == (0., 1.), 'defaults')
    o = outcome(lambda: BiSearchBins([1.] * max(n, 0)))
    need((o[0] == 'ok') == (n >= 2), 'BiSearchBins of %s edges: %r', n, o[1])
    need(outcome(lambda: BiSearchBins(np.ones((2, 2))))[0] == 'err',
         '2-D edges accepted')
    return (lo, hi, n)


def grid_body(ch):
    edges = edges_of(ch, 1)
    form = ch.pick(['list', 'array', 'grid', 'ints'], 'form')
    if form == 'ints':
        edges = [float(int(e)) for e in edges]
        arg = np.array(edges).astype(int)
    else:
        arg = {'list': edges, 'array': np.array(edges),
               'grid': Grid1d(edges)}[form]
    g = Grid1d(arg)
    need(g.n_locs == len(edges), 'n_locs')
    eq(g.locs, edges, 'locs')
    need(g.locs.dtype == np.float64, 'locs dtype')
    need(tuple(g.extent) == (edges[0], edges[-1]), 'extent')
    q = queries(edges)
    a = np.array(q)
    fz = Frozen(a=a)
    eq(g.locate(a), [ref(edges, v) for v in q], 'locate')
    for v in q[:4]:
        need(int(g.locate(v)) == ref(edges, v), 'scalar locate')
    if len(edges) > 1:
        c = g.centers
        need(isinstance(c, Grid1d), 'centers type')
        close(c.locs, [.5 * (x + y) for x, y in zip(edges, edges[1:])],
              'centers')
    if form == 'array':
        arg[0] = -99.
        eq(g.locs, edges, 'grid aliases its argument')
    fz.check('locate')
    return (tuple(edges), form)


def grid_ctor_body(ch):
    x = ch.upto([0., 1., 2.], 0, 4, 'locs')
    o = outcome(lambda: Grid1d(np.array(x)))
    ok = len(x) >= 1 and all(p <= q for p, q in zip(x, x[1:]))
    need((o[0] == 'ok') == ok, 'Grid1d(%s): %r', x, o[1])
    need(outcome(lambda: Grid1d(np.zeros((2, 2))))[0] == 'err',
         '2-D locations accepted')
    need(outcome(lambda: GridMd(np.array(x), [0., 1.]))[0] ==
         ('ok' if ok else 'err'), 'GridMd(%s)', x)
    return tuple(x)


def md_locate_body(ch):
    nd = ch.pick([1, 2, 3], 'dims')
    pool = [[0., 1., 2.], [0., .5], [-1., 3., 3., 4.]]
    gs = [ch.pick(pool, f'g{d}') for d in range(nd)]
    g = GridMd(*[np.array(x) for x in gs])
    vals = [-2., 0., .5, 1.25, 3., 9.]
    n = ch.pick([0, 1, 2], 'n')
    pts = [[ch.pick(vals, f'p{i}{d}') if nd < 3 or d < 2 else vals[(i * 2) % 6]
            for d in range(nd)] for i in range(n)]
    x = np.array(pts).reshape(n, nd)
    fz = Frozen(x=x)
    out = g.locate(x)
    need(type(out) is tuple and len(out) == nd, 'locate: one array per axis')
    for d in range(nd):
        eq(out[d], [ref(gs[d], p[d]) for p in pts], f'locate axis {d}')
    if n:
        out2 = g.locate(pts)
        for d in range(nd):
            eq(out2[d], out[d], 'locate of a list')
    fz.check('locate')
    return (tuple(map(tuple, gs)), str(pts))


def memory():
    e = np.array([0., 1., 2.5, 7.])
    x = np.array([-1., 0., .5, 2.5, 6.9, 7., 9.])
    return layout.tree({
        'edges': (lambda e_, x_: BiSearchBins(e_).locate(x_), e, x),
        'nearest': (lambda e_, x_: BiSearchBins(e_).locate_nearest(x_), e, x),
        'equal': (lambda x_: EqualSpaceBins((0., 7.), 4).locate(x_), x),
        'grid': (lambda e_, x_: Grid1d(e_).locate(x_), e, x),
        'grids': (lambda e_, x_: GridMd(e_, e_ + 1).locate(x_), e,
                  np.stack([x, x[::-1]], -1)),
    })


def scenarios(tier):
    global TIER
    TIER = tier
    return [Tree(f.__name__[:-5], f) for f in (
        bins_body, equal_body, equal_ctor_body, grid_body, grid_ctor_body,
        md_locate_body)] + [memory()]
