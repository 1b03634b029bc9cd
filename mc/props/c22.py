"""Nearest-neighbour and local-kernel regression."""
import math

import numpy as np

from pyhipp.core import DataDict
from pyhipp.stats import reduction as R
from pyhipp.stats import KernelRegressionND, KernelRegression1D
from pyhipp.stats import kernel as K

from .. import layout
from ..engine import Tree
from ..util import need, outcome, eq, close, Frozen
from .c20 import SPECS, expect, compare

LEVEL = 'exploration'
RULE = ('every (training subset, query set, neighbour count, radius, kernel, '
        'weights, dimension) of the alphabet, every reduction, against a '
        'brute-force neighbour search; distinct by the case')
ASSUMPTIONS = ['weighted quantiles at 0 and 1 are compared if no weight is '
               'negligible',
               'no two training points with different values tie for the '
               'last neighbour', 'total weights are positive']
BOUNDS = {'quick': '1-5 training points of 1-3 features out of 5, 5 queries, '
                   'k = 1..n, 4 radii, 6 kernels',
          'thorough': '1-7 training points'}
NTR = 5
X1 = [0., 1., 2.3, 4.1, 7.7, 5.2, 9.4]
X2 = [0.3, 2.2, -1.9, 0.8, 0.1, 3.7, -2.5]
X3 = [1.7, -.4, .9, 2.6, -3.1, .2, 1.1]
YS = [3., -1., 8., .5, 2., 11., -6.]
WS = [1., .5, 2., 1.25, 4., .75, 3.]
QS = [-.65, .9, 2., 5.15, 40.]
KERNELS = [None, 'gaussian', 1.5, ('gaussian', {'sigma': .7}), 'tophat',
           ('tophat', {'radius': 2.5}), K.Tophat(4.)]


def kfun(kernel):
    """Reference kernel."""
    if kernel is None:
        return None
    if isinstance(kernel, K.Kernal):
        return lambda d: float(d < 4.)
    name, kw = ('gaussian', {'sigma': kernel}) if isinstance(
        kernel, float) else (kernel, {}) if isinstance(kernel, str) else \
        kernel
    if name == 'gaussian':
        s = kw.get('sigma', 1.)
        return lambda d: math.exp(-.5 * (d / s)**2)
    r = kw.get('radius', 1.)
    return lambda d: float(d < r)


def points(idx, nd):
    return [[X1[i], X2[i], X3[i]][:nd] for i in idx]


def qpoints(nd, nq):
    return [[q, .3 * q - .1, .5 - .2 * q][:nd] for q in QS[:nq]]


def dist(a, b):
    return math.sqrt(math.fsum((p - q)**2 for p, q in zip(a, b)))


def nearest(q, xs, k):
    """Indices of the k nearest, or None when ambiguous."""
    ds = sorted((dist(q, x), i) for i, x in enumerate(xs))
    if k < len(ds) and ds[k][0] - ds[k - 1][0] < 1e-9:
        return None
    return [(d, i) for d, i in ds[:k]]


def train(ch):
    n = ch.pick(list(range(1, NTR + 1)), 'n')
    first = ch.pick([0, 1], 'first')
    idx = [(first + i) % len(X1) for i in range(n)]
    nd = ch.pick([1, 2, 3], 'features')
    return idx, nd


def arrays(ch, idx, nd, weighted, nq=5):
    xs = points(idx, nd)
    form = ch.pick(['array', 'list'] + (['flat'] if nd == 1 else []), 'form')
    x, q = np.array(xs), np.array(qpoints(nd, nq))
    y = np.array([YS[i] for i in idx])
    w = np.array([WS[i] for i in idx]) if weighted else None
    if form == 'flat':
        x, q = x[:, 0], q[:, 0]
    elif form == 'list':
        x, q, y = x.tolist(), q.tolist(), y.tolist()
        w = None if w is None else w.tolist()
    return form, x, q, y, w


def check_out(out, specs, rows, q2, what):
    """rows[i]: (values, weights or None) of the selected points of query i."""
    need(isinstance(out, DataDict) and len(out['y']) == len(specs),
         'result structure')
    close(out['x'], q2, 'query points')
    for s, y in zip(specs, out['y']):
        key = 'y_' + type(s.mk()).key
        need(np.asarray(y).shape[:1] == (len(rows),), '%s: %s: shape %s',
             what, s.name, np.shape(y))
        last = [t for t in specs if type(t.mk()).key == type(s.mk()).key][-1]
        if last is s:
            need(out[key] is y or np.array_equal(out[key], y, equal_nan=True),
                 'entry %s differs from the list', key)
        for i, (v, w) in enumerate(rows):
            want = expect(s, v, w, None)
            if want is None:
                continue
            compare(s, np.asarray(y)[i], want,
                    f'{what}: {s.name} at query {i}')


def knn_body(ch):
    idx, nd = train(ch)
    n = len(idx)
    k = ch.pick(list(range(1, n + 1)), 'k')
    max_dx = ch.pick([None, .1, 3., 100.], 'max_dx')
    ker = ch.pick(KERNELS, 'kernel')
    weighted = ch.flag('weighted')
    form, x, q, y, w = arrays(ch, idx, nd, weighted)
    xs, qs = points(idx, nd), qpoints(nd, 5)
    rows = []
    kf = kfun(ker)
    for p in qs:
        nb = nearest(p, xs, k)
        if nb is None:
            return None
        nb = [(d, i) for d, i in nb if max_dx is None or d < max_dx]
        ww = None
        if weighted or kf:
            ww = [(WS[idx[i]] if weighted else 1.) * (kf(d) if kf else 1.)
                  for d, i in nb]
            if nb and sum(ww) < 1e-200:
                ww = [0.] * len(nb)
        rows.append(([YS[idx[i]] for d, i in nb], ww))
    fz = Frozen(**{a: v for a, v in (('x', x), ('q', q), ('y', y), ('w', w))
                   if isinstance(v, np.ndarray)})
    cls = KernelRegression1D if nd == 1 and n % 2 else KernelRegressionND
    given = (list, iter)[(n + nd + k) % 2]
    kw = dict(k=k, max_dx=max_dx, kernel=ker, weight=w)
    if n == 3:
        kw['impl_kw'] = {'leaf_size': 1}
        kw['impl_query_kw'] = {'dualtree': False}
    with np.errstate(all='ignore'):
        out = cls.by_knn(x, y, q, reduce=given([s.mk() for s in SPECS]),
                         **kw)
        check_out(out, SPECS, rows, qs, 'knn')
        out = cls.by_knn(x, y, q, **kw)
        check_out(out, [s for s in SPECS if s.name == 'mean'], rows, qs,
                  'knn default')
    fz.check('by_knn')
    return (tuple(idx), nd, k, max_dx, str(ker), weighted, form)


def boundary_body(ch):
    """A neighbour exactly at the maximum distance."""
    r = ch.pick([1., 2., .5], 'radius')
    q = ch.pick([0., 4.], 'query')
    x = np.array([q - r / 2, q + r, q + 3 * r])
    y = np.array([1., 10., 100.])
    out = KernelRegression1D.by_knn(x, y, [q], reduce=['count', 'sum'], k=3,
                                    max_dx=r)['y']
    eq(np.array(out).ravel(), [1, 1.], 'at the maximum distance (knn)')
    out = KernelRegression1D.by_local_kernel(
        x, y, [q], reduce=['count', 'sum'], max_dx=r)['y']
    eq(np.array(out).ravel(), [2, 11.], 'at the maximum distance (local)')
    return (r, q)


def zero_radius_body(ch):
    """A maximum distance of zero: no neighbour is strictly closer, only
    coincident points are within it."""
    nd = ch.pick([1, 2], 'features')
    n = ch.pick([1, 2, 3], 'coincident')
    z = ch.pick([0, 0., np.float64(0)], 'zero')
    x = np.array([[1., 2.][:nd]] * n + [[3., 2.][:nd], [1.1, -4.][:nd]])
    y = np.arange(1., n + 3)
    q = np.array([[1., 2.][:nd], [1.01, 2.01][:nd]])
    kw = dict(reduce=['count', 'sum'], max_dx=z)
    out = KernelRegressionND.by_knn(x, y, q, k=n, **kw)['y']
    eq(np.array(out), [[0, 0], [0, 0]], 'knn within zero')
    out = KernelRegressionND.by_local_kernel(x, y, q, **kw)['y']
    eq(np.array(out), [[n, 0], [n * (n + 1) / 2, 0]], 'points within zero')
    f = KernelRegressionND.masked_fraction_by_knn(
        x, y > 0, q, k=n, max_dx=z, min_count=1)
    need(f.invalid.all(), 'fraction of no neighbours valid')
    return (nd, n, str(z))


def forms_body(ch):
    """Reductions by name, with options, as objects, several, repeated."""
    m = ch.pick(['by_knn', 'by_local_kernel'], 'method')
    reqs = ch.pick([
        'mean', ('mean', {}), ('mean', {'empty_fill': 5.}), R.Mean(7.),
        ['mean'], ['count', 'mean'], ['mean', ('mean', {'empty_fill': 5.})],
        [R.Mean(7.), ('sd', {'empty_fill': 1.}), 'sd', 'std', 'sum'],
        [('median', {'empty_fill': 2.}), 'cnt'], [],
        [('quantile', {'ps': (.25, .75), 'empty_fill': 0.}), 'count'],
        [('errorbar', {'reduce': 'mean+sd', 'empty_fill': 3.})]], 'reduce')
    form = ch.pick(['list', 'generator', 'set of queries'], 'form')
    single = not isinstance(reqs, list)
    lst = [reqs] if single else reqs
    x = np.array([0., 1., 2.5, 4.])
    y = np.array([3., -1., 8., .5])
    q = np.array([.25, 50., 3.]) if form != 'list' else np.array([[.25]])
    kw = {'k': 4} if m == 'by_knn' else {}
    given = reqs if single or form != 'generator' else (r for r in reqs)
    out = getattr(KernelRegression1D, m)(x, y, q, max_dx=1.9, reduce=given,
                                         **kw)
    need(len(out['y']) == len(lst), '%d results for %d reductions',
         len(out['y']), len(lst))
    last = {}
    for r, got in zip(lst, out['y']):
        name, kws = (r.key, {'empty_fill': 7.}) if isinstance(r, R.Reduce) \
            else (r, {}) if isinstance(r, str) else r
        red = {'count': R.Count, 'cnt': R.Count, 'sum': R.Sum, 'mean': R.Mean,
               'sd': R.StdDev, 'std': R.StdDev, 'std_dev': R.StdDev,
               'median': R.Median, 'quantile': R.Quantile,
               'errorbar': R.Errorbar}[name](**kws)
        want = [red(y[[i for i in range(4) if abs(x[i] - v) < 1.9]])
                for v in q.ravel().tolist()]
        close(got, np.array(want), f'{name} {kws}')
        last[name] = got
    for name, got in last.items():
        close(out['y_' + name], got, 'y_' + name)
    need({k for k in out if k.startswith('y_')} == {
        'y_' + n for n in last}, 'names %s', list(out))
    return (m, str(reqs) if single else len(lst), form)


def default_k_body(ch):
    """Without k, 32 neighbours are used."""
    n = ch.pick([32, 33, 40], 'n')
    order = ch.pick(['up', 'down'], 'order')
    x = np.arange(float(n))
    if order == 'down':
        x = x[::-1].copy()
    cls = ch.pick([KernelRegressionND, KernelRegression1D], 'class')
    kw = dict(reduce=['count', 'sum'])
    eq(np.array(cls.by_knn(x, x, [-1.], **kw)['y']).ravel(),
       [32, 496.], 'default number of neighbours')
    m = x >= 16
    f = cls.masked_fraction_by_knn(x, m, [-1.])
    close(f.values, [.5], 'default number of neighbours (fraction)')
    need(not f.invalid.any(), 'enough neighbours')
    return (n, order, cls.__name__)


METRICS = {
    None: dist, 'euclidean': dist,
    'manhattan': lambda a, b: math.fsum(abs(p - q) for p, q in zip(a, b)),
    'chebyshev': lambda a, b: max(abs(p - q) for p, q in zip(a, b))}


def options(ch, methods):
    """A method with options for the neighbour search."""
    m = ch.pick(methods, 'method')
    metric = ch.pick(list(METRICS), 'metric')
    leaf = ch.pick([None, 1], 'leaf_size')
    q = ch.pick([None, {}, {'sort_results': True}, {'bogus': 1}] + (
        [{'dualtree': True}, {'breadth_first': True, 'sort_results': True}]
        if m != 'local' else []), 'query options')
    kw, ikw = {}, {}
    if metric:
        ikw['metric'] = metric
    if leaf:
        ikw['leaf_size'] = leaf
    if ikw:
        kw['impl_kw'] = ikw
    if q is not None:
        kw['impl_query_kw'] = dict(q)
    return m, METRICS[metric], kw, str(sorted(ikw.items())) + str(q)


def unused(call, kw, key):
    """Run; options that the search does not have are not ignored."""
    before = {k: dict(v) for k, v in kw.items()}
    st, out = outcome(call)
    need(kw == before, 'options changed to %s', kw)
    if 'bogus' in key:
        need(st == 'err' and isinstance(out, TypeError),
             'unknown option of the search ignored (%s)', st)
        return None
    need(st == 'ok', 'failed: %r', out)
    return out


def options_body(ch):
    m, metric, kw, key = options(ch, ['knn', 'local', 'fraction'])
    nd = ch.pick([2, 3], 'features')
    r = ch.pick([2.5, 4.], 'max_dx')
    idx = list(range(6))
    xs = points(idx, nd)
    qs = [[v + d for v, d in zip(p, (.0137, -.0071, .0033))]
          for p in qpoints(nd, 4)]
    x, q, y = np.array(xs), np.array(qs), np.array([YS[i] for i in idx])
    mask = np.array([i % 2 == 0 for i in idx])
    F = KernelRegressionND
    out = unused({
        'knn': lambda: F.by_knn(x, y, q, k=3, max_dx=r,
                                reduce=['count', 'sum'], **kw),
        'local': lambda: F.by_local_kernel(x, y, q, max_dx=r,
                                           reduce=['count', 'sum'], **kw),
        'fraction': lambda: F.masked_fraction_by_knn(
            x, mask, q, k=3, max_dx=r, min_count=2, **kw)}[m], kw, key)
    if out is None:
        return m, key, nd, r
    for j, p in enumerate(qs):
        nb = sorted((metric(p, v), i) for i, v in enumerate(xs))
        need(all(b[0] - a[0] > 1e-6 for a, b in zip(nb, nb[1:])) and
             all(abs(d - r) > 1e-6 for d, _ in nb), 'tie in the alphabet')
        if m != 'local':
            nb = nb[:3]
        sel = [i for d, i in nb if d < r]
        if m == 'fraction':
            need(bool(out.invalid[j]) == (len(sel) < 2), 'invalid flag')
            if sel:
                close(out.values[j], sum(i % 2 == 0 for i in sel) / len(sel),
                      'masked fraction')
            continue
        close([out['y'][0][j], out['y'][1][j]],
              [len(sel), math.fsum(YS[i] for i in sel)],
              f'count and sum at {p}')
    return m, key, nd, r


def local_body(ch):
    idx, nd = train(ch)
    max_dx = ch.pick([None, .05, 1.2, 3., 100.], 'max_dx')
    ker = ch.pick(KERNELS, 'kernel')
    weighted = ch.flag('weighted')
    form, x, q, y, w = arrays(ch, idx, nd, weighted)
    xs, qs = points(idx, nd), qpoints(nd, 5)
    r = max_dx if max_dx is not None else \
        float(np.array(qs).std(0).mean() / 10.)
    rows = []
    kf = kfun(ker)
    for p in qs:
        nb = [(dist(p, x_), i) for i, x_ in enumerate(xs)]
        nb = [(d, i) for d, i in nb if d <= r]
        ww = None
        if weighted or kf:
            ww = [(WS[idx[i]] if weighted else 1.) * (kf(d) if kf else 1.)
                  for d, i in nb]
            if nb and sum(ww) < 1e-200:
                ww = [0.] * len(nb)
        rows.append(([YS[idx[i]] for d, i in nb], ww))
    fz = Frozen(**{a: v for a, v in (('x', x), ('q', q), ('y', y), ('w', w))
                   if isinstance(v, np.ndarray)})
    cls = KernelRegression1D if nd == 1 and len(idx) % 2 else \
        KernelRegressionND
    kw = dict(max_dx=max_dx, kernel=ker, weight=w)
    given = (list, iter)[(len(idx) + nd) % 2]
    with np.errstate(all='ignore'):
        out = cls.by_local_kernel(
            x, y, q, reduce=given([s.mk() for s in SPECS]), **kw)
        check_out(out, SPECS, rows, qs, 'local kernel')
        out = cls.by_local_kernel(x, y, q, reduce='median', **kw)
        check_out(out, [s for s in SPECS if s.name == 'median'], rows, qs,
                  'local kernel median')
    fz.check('by_local_kernel')
    return (tuple(idx), nd, max_dx, str(ker), weighted, form)


def default_radius_body(ch):
    """Without max_dx, the radius is a tenth of the mean spread of the
    features of the query points."""
    nd = ch.pick([1, 2, 3], 'features')
    off = ch.pick([0., 50., -3.], 'offset')
    scale = ch.pick([1., 20.], 'scale of the last feature')
    n = ch.pick([2, 3, 5], 'queries')
    q = np.array([[j * [2., -1., .5][d] + off * d for d in range(nd)]
                  for j in range(n)])
    q[:, -1] *= scale
    sd = [math.sqrt(math.fsum((v - math.fsum(c) / n)**2 for v in c) / n)
          for c in q.T.tolist()]
    r = math.fsum(sd) / nd / 10
    f = [0., .3, .9, .99, 1.01, 1.1, 2., 3., 8.]
    x = np.array([q[0] - (r * v) * np.eye(nd)[i % nd] * (-1)**i
                  for i, v in enumerate(f)])
    want = [sum(dist(p, x_) <= r for x_ in x.tolist()) for p in q.tolist()]
    cls = KernelRegression1D if nd == 1 and n % 2 else KernelRegressionND
    out = cls.by_local_kernel(x, np.arange(9.), q, reduce=['count'])
    eq(np.array(out['y'][0]), want, 'points within the default radius')
    return (nd, off, scale, n)


def fraction_body(ch):
    idx, nd = train(ch)
    n = len(idx)
    k = ch.pick(list(range(1, n + 1)), 'k')
    max_dx = ch.pick([None, 3.], 'max_dx')
    ker = ch.pick([None, ('gaussian', {'sigma': 2.})], 'kernel')
    weighted = ch.flag('weighted')
    mask = [ch.flag(f'masked[{i}]') for i in range(n)]
    mc = ch.pick([0, 1, 2, None], 'min_count')
    xs, qs = points(idx, nd), qpoints(nd, 5)
    x, q = np.array(xs), np.array(qs)
    w = np.array([WS[i] for i in idx]) if weighted else None
    m = np.array(mask)
    fz = Frozen(x=x, q=q, m=m, **({'w': w} if weighted else {}))
    kw = {} if mc is None else {'min_count': mc}
    res = KernelRegressionND.masked_fraction_by_knn(
        x, m, q, k=k, max_dx=max_dx, kernel=ker, weight=w, **kw)
    kf = kfun(ker)
    for j, p in enumerate(qs):
        nb = nearest(p, xs, k)
        if nb is None:
            return None
        nb = [(d, i) for d, i in nb if max_dx is None or d < max_dx]
        ww = [(WS[idx[i]] if weighted else 1.) * (kf(d) if kf else 1.)
              for d, i in nb]
        tot = math.fsum(ww)
        got = float(res.values[j])
        if tot > 1e-8:
            close(got, math.fsum(a for a, (d, i) in zip(ww, nb) if mask[i])
                  / tot, 'masked fraction', atol=1e-7)
        elif not nb:
            need(got == 0., 'fraction without neighbours: %r', got)
        inv = len(nb) < (10 if mc is None else mc)
        need(bool(np.broadcast_to(res.invalid, (len(qs),))[j]) == inv,
             'invalid flag with %d neighbours, min_count %r', len(nb), mc)
        need(bool(np.ma.getmaskarray(res.values_ma)[j]) == inv,
             'masked result')
        if not inv:
            need(float(res.values_ma[j]) == got, 'masked array value')
    fz.check('masked_fraction_by_knn')
    return (tuple(idx), nd, k, max_dx, str(ker), weighted, tuple(mask), mc)


def memory():
    x, q = np.array(points(range(6), 2)), np.array(qpoints(2, 4))
    y, w = np.array(YS[:6]), np.array(WS[:6])
    m = np.arange(6) % 2 == 0
    F = KernelRegressionND
    red = ['mean', 'sd', 'count']
    return layout.tree({
        'knn': (lambda a, b, c, d: F.by_knn(
            a, b, c, k=3, reduce=red, weight=d), x, y, q, w),
        'local': (lambda a, b, c, d: F.by_local_kernel(
            a, b, c, max_dx=6., reduce=red, kernel=2., weight=d), x, y, q, w),
        'fraction': (lambda a, b, c, d: F.masked_fraction_by_knn(
            a, b, c, k=3, weight=d).values, x, m, q, w),
    })


def scenarios(tier):
    global NTR
    NTR = 5 if tier == 'quick' else 7
    return [Tree(f.__name__[:-5], f) for f in (
        knn_body, boundary_body, zero_radius_body, forms_body,
        default_k_body, options_body, local_body,
        default_radius_body, fraction_body)] + [memory()]
