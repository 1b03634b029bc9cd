"""Multi-dimensional grids: layout, evaluation, construction from data."""
import itertools

import numpy as np

from pyhipp.core.dataproc import Grid1d, GridMd

from .. import layout
from ..engine import Tree
from ..util import need, outcome, eq, close

LEVEL = 'exploration'
RULE = ('every combination of per-axis location lists, indexing mode, input '
        'mode and result kind; distinct by (grid, modes, values)')
ASSUMPTIONS = ['applied functions are pure and return one row per point']
BOUNDS = {'quick': '1-3 dimensions, 1-4 locations per axis',
          'thorough': '1-4 dimensions'}
ND = 3
POOL = [[0.], [0., 1.], [-1., .5, 2.], [3., 3., 4., 8.]]
W = [1., 10., 100., 1000.]


def mk(gs, how):
    args = []
    for x in gs:
        if how == 'array':
            args.append(np.array(x))
        elif how == 'grid':
            args.append(Grid1d(x))
        else:
            args.append(x)
    return GridMd.at[tuple(args) if len(args) > 1 else args[0]] \
        if how == 'at' else GridMd(*args)


def layout_body(ch):
    nd = ch.pick(list(range(1, ND + 1)), 'dims')
    gs = [ch.pick(POOL, f'g{d}') for d in range(nd)]
    how = ch.pick(['array', 'list', 'grid', 'at'], 'how')
    if how == 'at':
        gs2 = [np.array(x) for x in gs]
        g = GridMd.at[tuple(gs2)] if nd > 1 else GridMd.at[gs2[0]]
    else:
        g = mk(gs, how)
    shape = tuple(len(x) for x in gs)
    if how in ('array', 'at'):
        # the grid keeps its nodes, whatever becomes of the arrays given
        arrs = [np.array(x) for x in gs]
        g = GridMd(*arrs) if how == 'array' else \
            GridMd.at[tuple(arrs) if nd > 1 else arrs[0]]
        for a in arrs:
            a += 50.
    need(g.n_dims == nd, 'n_dims')
    need(tuple(g.n_locs) == shape, 'n_locs %s, expected %s', g.n_locs, shape)
    need(len(g.locs_1d) == nd, 'locs_1d')
    for a, b in zip(g.locs_1d, gs):
        eq(a, b, 'locs_1d')
    ext = tuple(tuple(e) for e in g.extent)
    need(ext == tuple((x[0], x[-1]) for x in gs), 'extent %s', ext)
    ij, xy = g.locs, g.locs_xy
    need(len(ij) == nd and len(xy) == nd, 'one location array per axis')
    xyshape = shape if nd == 1 else (shape[1], shape[0]) + shape[2:]
    for d in range(nd):
        need(ij[d].shape == shape, 'ij shape %s', ij[d].shape)
        need(xy[d].shape == xyshape, 'xy shape %s', xy[d].shape)
    for i in itertools.product(*map(range, shape)):
        j = i if nd == 1 else (i[1], i[0]) + i[2:]
        for d in range(nd):
            need(ij[d][i] == gs[d][i[d]] and xy[d][j] == gs[d][i[d]],
                 'location at %s on axis %s', i, d)
    if all(len(x) > 1 for x in gs):
        c = g.centers
        need(isinstance(c, GridMd) and c.n_dims == nd, 'centers type')
        for d in range(nd):
            close(c.locs_1d[d], [.5 * (a + b) for a, b in
                                 zip(gs[d], gs[d][1:])], 'centers')
    return (how, tuple(map(tuple, gs)))


def slice_body(ch):
    n = ch.pick([2, 3, 5], 'n')
    lo, hi = ch.pick([(0., 1.), (-2., 2.)], 'range')
    g = GridMd.at[lo:hi:complex(0, n), 2.:3.:2j]
    want = [lo + (hi - lo) * i / (n - 1) for i in range(n)]
    close(g.locs_1d[0], want, 'slice grid')
    close(g.locs_1d[1], [2., 3.], 'slice grid')
    g = GridMd.at[lo:hi:complex(0, n)]
    need(g.n_dims == 1, 'single slice')
    close(g.locs_1d[0], want, 'slice grid')
    close(Grid1d(slice(lo, hi, .5)).locs, np.arange(lo, hi, .5), 'step slice')
    return (n, lo, hi)


def applied_body(ch):
    nd = ch.pick(list(range(1, ND + 1)), 'dims')
    gs = [ch.pick(POOL[:4 if nd < 3 else 3], f'g{d}') for d in range(nd)]
    g = GridMd(*[np.array(x) for x in gs])
    xy = ch.pick([None, True, False], 'xy_indexing')
    stack = ch.pick([None, True, False], 'stack_input')
    kind = ch.pick(['scalar', 'vector', 'matrix', 'tuple', 'list'], 'result')
    calls = []

    def f(*args):
        if stack is not False:
            need(len(args) == 1 and args[0].ndim == 2 and
                 args[0].shape[1] == nd, 'stacked input shape %s',
                 [a.shape for a in args])
            cols = [args[0][:, d] for d in range(nd)]
        else:
            need(len(args) == nd and all(a.ndim == 1 for a in args),
                 'unstacked input')
            cols = list(args)
        calls.append(len(cols[0]))
        v = sum(c * w for c, w in zip(cols, W))
        if kind == 'scalar':
            return v
        if kind == 'vector':
            return np.stack([v, -v, v + 1], -1)
        if kind == 'matrix':
            return np.stack([np.stack([v, 2 * v], -1)] * 3, 1)
        out = v, np.stack([v, -v], -1)
        return out if kind == 'tuple' else list(out)
    kw = {}
    if xy is not None:
        kw['xy_indexing'] = xy
    if stack is not None:
        kw['stack_input'] = stack
    r = g.applied(f, **kw)
    need(calls == [int(np.prod([len(x) for x in gs]))],
         'function evaluated on %s points', calls)
    shape = tuple(len(x) for x in gs)
    isxy = xy is not False
    vals = r.values if kind in ('tuple', 'list') else [r.values]
    tails = {'scalar': [()], 'vector': [(3,)], 'matrix': [(3, 2)],
             'tuple': [(), (2,)], 'list': [(), (2,)]}[kind]
    need(len(vals) == len(tails), 'number of results')
    need(len(r.locs) == nd and len(r.locs_1d) == nd, 'locations')
    for d in range(nd):
        eq(r.locs_1d[d], gs[d], 'locs_1d')
        eq(r.locs[d], (g.locs_xy if isxy else g.locs)[d], 'locs')
    for i in itertools.product(*map(range, shape)):
        j = (i[1], i[0]) + i[2:] if isxy and nd > 1 else i
        v = sum(gs[d][i[d]] * W[d] for d in range(nd))
        for a, t in zip(vals, tails):
            need(a.ndim == nd + len(t) and a.shape[nd:] == t,
                 'result shape %s', a.shape)
            want = {(): v, (3,): [v, -v, v + 1], (2,): [v, -v],
                    (3, 2): [[v, 2 * v]] * 3}[t]
            eq(a[j], np.asarray(want, dtype=float), f'value at {i}')
    return (tuple(map(tuple, gs)), xy, stack, kind)


def quantile(xs, p):
    s = sorted(xs)
    h = (len(s) - 1) * p
    k = min(int(h), len(s) - 1)
    return s[k] + (h - k) * (s[min(k + 1, len(s) - 1)] - s[k])


def range_body(ch):
    nd = ch.pick([1, 2, 3], 'dims')
    sets = [[0., 1., 5.], [2., -2.], [1., 1.], [4., 0., 1., 2., 3.]]
    data = [ch.pick(sets, f'd{d}') for d in range(nd)]
    p = ch.pick([None, (0., 1.), (.25, .75), (0., .5), (.1, .9)], 'p')
    n = ch.pick([None, 2, 3, 'per'], 'n')
    kw = {}
    if p:
        kw.update(p_lo=p[0], p_hi=p[1])
    ns = [32] * nd
    if n == 'per':
        ns = [2, 4, 3][:nd]
        kw['n'] = np.array(ns) if ch.flag('array n') else ns
    elif n:
        ns = [n] * nd
        kw['n'] = n
    g = GridMd.from_data_range(*[np.array(d) for d in data], **kw)
    lo, hi = p or (0., 1.)
    need(tuple(g.n_locs) == tuple(ns), 'n_locs %s, expected %s', g.n_locs, ns)
    for d in range(nd):
        a, b = quantile(data[d], lo), quantile(data[d], hi)
        close(g.locs_1d[d], [a + (b - a) * i / (ns[d] - 1)
                             for i in range(ns[d])], f'axis {d}', rtol=1e-12)
    return (str(data), p, str(n))


def memory():
    e, g = np.array([0., 1., 2.5]), np.array([5, 7])
    return layout.tree({
        'points': (lambda a, b: GridMd(a, b).applied(
            lambda p: p[:, 0] * 10 + p[:, 1]).values, e, g),
        'nodes': (lambda a, b: GridMd(a, b).locs_1d, e, g),
        'extent': (lambda a, b: GridMd(a, b).extent, e, g),
        'centers': (lambda a, b: GridMd(a, b).centers.locs_1d, e, g),
    })


def scenarios(tier):
    global ND
    ND = 3 if tier == 'quick' else 4
    return [Tree(f.__name__[:-5], f) for f in (
        layout_body, slice_body, applied_body, range_body)] + [memory()]
