"""Density estimates."""
import bisect
import math

import numpy as np

from pyhipp.core import DataDict
from pyhipp.core.dataproc import GridMd
from pyhipp.stats import DensityEstimationND, DensityEstimation1D

from .. import layout
from ..engine import Tree
from ..util import need, outcome, eq, close, Frozen
from .c22 import (X1, X2, X3, WS, QS, KERNELS, kfun, points, qpoints, dist,
                  nearest, options, unused)

LEVEL = 'exploration'
RULE = ('every (sample, queries, grid or neighbour rule, kernel, weights, '
        'dimension) of the alphabet against brute force; distinct by the case')
ASSUMPTIONS = ['no two sample points of different weight tie for the last '
               'neighbour', 'kernel weights do not all vanish']
BOUNDS = {'quick': '1-5 sample points of 1-3 dimensions, 5-9 queries incl. '
                   'grid edges, k = 1..n, 4 radii, 6 kernels',
          'thorough': '1-7 sample points'}
NTR = 5


def sample(ch):
    n = ch.pick(list(range(1, NTR + 1)), 'n')
    first = ch.pick([0, 2], 'first')
    idx = [(first + i) % len(X1) for i in range(n)]
    return idx, ch.pick([1, 2, 3], 'dims')


def ball(nd, r):
    return {1: 2 * r, 2: math.pi * r * r, 3: 4 / 3 * math.pi * r**3}[nd]


def inputs(ch, idx, nd, qs, weighted):
    xs = points(idx, nd)
    x, q = np.array(xs), np.array(qs)
    w = np.array([WS[i] for i in idx]) if weighted else None
    form = ch.pick(['array', 'list'] + (['flat'] if nd == 1 else []), 'form')
    if form == 'flat':
        x, q = x[:, 0], q[:, 0]
    elif form == 'list':
        x, q = x.tolist(), q.tolist()
        w = None if w is None else w.tolist()
    fz = Frozen(**{a: v for a, v in (('x', x), ('q', q), ('w', w))
                   if isinstance(v, np.ndarray)})
    return form, x, q, w, fz


GRIDS = {1: [[0., 1., 4.1, 8.], [-1., 10.], [0., 2.3, 7.7]],
         2: [[-3., 0.3, 1., 4.], [-2., .5]],
         3: [[-4., 1.7, 3.], [-.5, 0., 2.]]}


def hist_body(ch):
    idx, nd = sample(ch)
    g = [ch.pick(GRIDS[d + 1], f'grid{d}') for d in range(nd)]
    weighted = ch.flag('weighted')
    density = ch.pick([True, False, None], 'density')
    fill = ch.pick([None, -1.], 'out_fill')
    qs = [[v[i % len(v)] for v in g] for i in range(4)] + \
        [[.5 * (v[0] + v[1]) for v in g], [v[0] - .1 for v in g],
         [v[-1] + .1 for v in g], [np.nextafter(v[-1], -9e9) for v in g],
         [v[0] if j else v[-1] for j, v in enumerate(g)]] + qpoints(nd, 4)
    form, x, q, w, fz = inputs(ch, idx, nd, qs, weighted)
    xs = points(idx, nd)

    def cell(p, right):
        ids = []
        for v, e in zip(p, g):
            i = bisect.bisect_right(e, v) - 1
            if right and v == e[-1]:
                i = len(e) - 2
            if not 0 <= i < len(e) - 1:
                return None
            ids.append(i)
        return tuple(ids)
    h = {}
    for p, i in zip(xs, idx):
        c = cell(p, True)
        if c is not None:
            h[c] = h.get(c, 0.) + (WS[i] if weighted else 1.)
    tot = math.fsum(h.values())
    dens = density is not False
    if dens and tot == 0.:
        return None
    kw = {}
    if density is not None:
        kw['density'] = density
    if fill is not None:
        kw['out_fill'] = fill
    cls = DensityEstimation1D if nd == 1 else DensityEstimationND
    out = cls.by_histogram(x, q, GridMd(*[np.array(v) for v in g]),
                           weight=w, **kw)
    need(isinstance(out, DataDict), 'result type')
    for j, p in enumerate(qs):
        c = cell(p, False)
        if c is None:
            want = 0. if fill is None else fill
        else:
            want = h.get(c, 0.)
            if dens:
                want /= tot * math.prod(
                    e[i + 1] - e[i] for i, e in zip(c, g))
        close(float(out['h'][j]), want, f'histogram density at {p}')
        need(bool(out['is_out'][j]) == (c is None), 'is_out at %s', p)
        if c is not None:
            need(tuple(int(a[j]) for a in out['ids']) == c ==
                 tuple(int(a[j]) for a in out['clipped_ids']),
                 'bin of %s', p)
    fz.check('by_histogram')
    return (tuple(idx), nd, str(g), weighted, density, fill, form)


def local_body(ch):
    idx, nd = sample(ch)
    max_dx = ch.pick([None, .05, 1.2, 3., 100.], 'max_dx')
    ker = ch.pick(KERNELS, 'kernel')
    weighted = ch.flag('weighted')
    qs = qpoints(nd, 5)
    form, x, q, w, fz = inputs(ch, idx, nd, qs, weighted)
    xs = points(idx, nd)
    r = max_dx if max_dx is not None else \
        float(np.array(qs).std(0).mean() / 10.)
    kf = kfun(ker)
    tot = math.fsum(WS[i] if weighted else 1. for i in idx)
    cls = DensityEstimation1D if nd == 1 else DensityEstimationND
    with np.errstate(all='ignore'):
        out = cls.by_local_kernel(x, q, max_dx=max_dx, kernel=ker, weight=w)
    for j, p in enumerate(qs):
        nb = [(dist(p, x_), i) for x_, i in zip(xs, idx)]
        nb = [(d, i) for d, i in nb if d <= r]
        ks = [kf(d) if kf else 1. for d, _ in nb]
        if nb and math.fsum(ks) < 1e-200:
            continue
        h = math.fsum((WS[i] if weighted else 1.) / tot * kk * len(nb)
                      / math.fsum(ks) for kk, (d, i) in zip(ks, nb))
        close(float(out['h'][j]), h / ball(nd, r), f'density at {p}')
        need(int(out['n_neighbors'][j]) == len(nb), 'neighbours at %s', p)
        close(float(out['neighbor_max_dx'][j]),
              max([d for d, _ in nb], default=0.), 'largest distance')
    fz.check('by_local_kernel')
    return (tuple(idx), nd, max_dx, str(ker), weighted, form)


def knn_body(ch):
    idx, nd = sample(ch)
    k = ch.pick(list(range(1, len(idx) + 1)), 'k')
    max_dx = ch.pick([None, .05, 3., 100.], 'max_dx')
    ker = ch.pick(KERNELS, 'kernel')
    weighted = ch.flag('weighted')
    qs = qpoints(nd, 5)
    form, x, q, w, fz = inputs(ch, idx, nd, qs, weighted)
    xs = points(idx, nd)
    kf = kfun(ker)
    tot = math.fsum(WS[i] if weighted else 1. for i in idx)
    cls = DensityEstimation1D if nd == 1 else DensityEstimationND
    with np.errstate(all='ignore'):
        out = cls.by_knn(x, q, k=k, max_dx=max_dx, kernel=ker, weight=w)
    for j, p in enumerate(qs):
        nb = nearest(p, xs, k)
        if nb is None:
            return None
        r = nb[-1][0] if max_dx is None else min(nb[-1][0], max_dx)
        nb = [(d, i) for d, i in nb if max_dx is None or d < max_dx]
        need(int(out['n_neighbors'][j]) == len(nb), 'neighbours at %s', p)
        close(float(out['neighbor_max_dx'][j]), r, 'radius')
        ks = [kf(d) if kf else 1. for d, _ in nb]
        if r < 1e-6 or (nb and math.fsum(ks) < 1e-200):
            continue
        h = math.fsum((WS[idx[i]] if weighted else 1.) / tot * kk * len(nb)
                      / math.fsum(ks) for kk, (d, i) in zip(ks, nb))
        got = float(out['h'][j])
        close(got, h / ball(nd, r), f'density at {p}')
    fz.check('by_knn')
    return (tuple(idx), nd, k, max_dx, str(ker), weighted, form)


def options_body(ch):
    m, metric, kw, key = options(ch, ['knn', 'local'])
    nd = ch.pick([1, 2, 3], 'dims')
    r = ch.pick([2.55, 4.05], 'max_dx')
    idx = list(range(6))
    xs = points(idx, nd)
    qs = [[v + d for v, d in zip(p, (.0137, -.0071, .0033))]
          for p in qpoints(nd, 4)]
    x, q = np.array(xs), np.array(qs)
    F = DensityEstimationND
    out = unused({
        'knn': lambda: F.by_knn(x, q, k=3, max_dx=r, **kw),
        'local': lambda: F.by_local_kernel(x, q, max_dx=r, **kw)}[m], kw, key)
    if out is None:
        return m, key, nd, r
    for j, p in enumerate(qs):
        ds = sorted(metric(p, v) for v in xs)
        if m == 'knn':
            ds = ds[:3]
        sel = [d for d in ds if d < r]
        need(all(abs(d - r) > 1e-6 for d in ds), 'tie in the alphabet')
        need(int(out['n_neighbors'][j]) == len(sel), 'neighbours at %s: %s, '
             'expected %d', p, out['n_neighbors'][j], len(sel))
        close(float(out['neighbor_max_dx'][j]), min(max(ds), r) if m == 'knn'
              else max(sel, default=0.), 'largest distance')
    return m, key, nd, r


def weights_body(ch):
    """The estimate depends on the ratios of the weights only, not on their
    type or magnitude; any number of dimensions."""
    m = ch.pick(['local', 'knn', 'knn max', 'histogram'], 'method')
    nd = ch.pick([1, 2, 3, 4, 5], 'dims')
    dt = ch.pick(['f8', 'f4', 'u1', 'i1', 'i8', 'tiny', 'huge', 'none',
                  'list'], 'weights')
    ker = ch.pick([None, 2.], 'kernel') if m != 'histogram' else None
    n = ch.pick([1, 2, 6], 'n')
    if m.startswith('knn') and n == 1:
        return None
    if m == 'histogram' and nd > 3:
        return None
    wi = [100, 60, 90, 25, 110, 7][:n]
    w = {'f8': np.array(wi, float), 'tiny': np.array(wi) * 1e-14,
         'huge': np.array(wi) * 1e200, 'none': None, 'list': wi}[dt] \
        if dt in ('f8', 'tiny', 'huge', 'none', 'list') else \
        np.array(wi, dtype=dt)
    xs = [[(3 * i + 5 * d + i * d) % 7 / 4. for d in range(nd)]
          for i in range(n)]
    q = [[.8 + .1 * d for d in range(nd)], xs[0], [9.] * nd]
    r, k = 1.75, 2
    F = DensityEstimationND
    x = np.array(xs)
    with np.errstate(all='ignore'):
        if m == 'local':
            out = F.by_local_kernel(x, q, max_dx=r, kernel=ker, weight=w)
        elif m == 'histogram':
            e = np.array([0., .5, 1., 2.5])
            out = F.by_histogram(x, q, GridMd(*[e] * nd), weight=w,
                                 density=True)
        else:
            out = F.by_knn(x, q, k=k, kernel=ker, weight=w,
                           max_dx=r if m == 'knn max' else None)
    tot = n if w is None else sum(wi)
    for j, p in enumerate(q):
        ds = sorted((dist(p, v), i) for i, v in enumerate(xs))
        if m == 'histogram':
            e = [0., .5, 1., 2.5]

            def cell(v):
                return [bisect.bisect_right(e, c) - 1 for c in v]
            c = cell(p)
            want = 0. if max(c) > 2 else math.fsum(
                1 if w is None else wi[i] for i, v in enumerate(xs)
                if cell(v) == c) / tot / math.prod(
                    e[i + 1] - e[i] for i in c)
            close(float(out['h'][j]), want, f'histogram {dt}', rtol=1e-6)
            continue
        if m == 'local':
            nb, rad = [d for d in ds if d[0] <= r], r
            if any(abs(d[0] - r) < 1e-9 for d in ds):
                continue
        else:
            nb = ds[:k]
            if len(ds) > k and ds[k][0] - ds[k - 1][0] < 1e-9:
                continue
            rad = nb[-1][0]
            if m == 'knn max':
                rad = min(rad, r)
                nb = [d for d in nb if d[0] < r]
        if rad < 1e-6:
            continue
        ks = [1. if ker is None else math.exp(-.5 * (d / ker)**2)
              for d, _ in nb]
        h = math.fsum((1 if w is None else wi[i]) / tot * a * len(nb)
                      / math.fsum(ks) for a, (d, i) in zip(ks, nb))
        vol = math.pi**(nd / 2) / math.gamma(nd / 2 + 1) * rad**nd
        close(float(out['h'][j]), h / vol, f'{m} {dt} at {p}', rtol=1e-6,
              atol=1e-15)
    return (m, nd, dt, ker, n)


def default_k_body(ch):
    """Without k, 32 neighbours are used."""
    n = ch.pick([32, 33, 40], 'n')
    cls = ch.pick([DensityEstimationND, DensityEstimation1D], 'class')
    x = np.arange(float(n))[::ch.pick([1, -1], 'order')]
    out = cls.by_knn(x, [-1.])
    need(out['n_neighbors'].tolist() == [32], 'default number of neighbours')
    close(out['neighbor_max_dx'], [32.], 'radius')
    close(out['h'], [32. / n / 64.], 'density')
    return n, cls.__name__, x[0]


def memory():
    x, q = np.array(points(range(6), 2)), np.array(qpoints(2, 4))
    w = np.array(WS[:6])
    e = np.array([-5., .2, 1., 8.])
    F = DensityEstimationND
    return layout.tree({
        'knn': (lambda a, b, c: F.by_knn(a, b, k=3, weight=c), x, q, w),
        'local': (lambda a, b, c: F.by_local_kernel(
            a, b, max_dx=6., kernel=2., weight=c), x, q, w),
        'histogram': (lambda a, b, c, d: F.by_histogram(
            a, b, GridMd(d, d), weight=c), x, q, w, e),
    })


def scenarios(tier):
    global NTR
    NTR = 5 if tier == 'quick' else 7
    return [Tree(f.__name__[:-5], f) for f in (
        hist_body, local_body, knn_body, options_body, weights_body,
        default_k_body)] + [memory()]
