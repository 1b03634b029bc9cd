"""Two-dimensional densities of points: histogram, neighbours, level sets."""
import itertools

import numpy as np
from matplotlib import colors as mc
from matplotlib.figure import Figure as MplFigure

from pyhipp import plot
from pyhipp.plot.axes import Axes
from pyhipp.plot.two_dim import (DensityEstimator2D, Histogram2D,
                                 KNearestNeighbor2D, Scatter2D)

from ..engine import Tree
from ..util import need, outcome, eq, close, Frozen, rnd

LEVEL = 'exploration'
RULE = ('every set of points of the alphabet with every binning and query; '
        'distinct = distinct (points, binning, result) combinations')
ASSUMPTIONS = ['agreement to 1e-9']
BOUNDS = {'quick': 'sets of 1-3 points out of 10 positions (bin edges and '
                   'outside included), 3x3 binnings, 8 x 8 queries; 6 fixed '
                   'point sets for level sets and drawing',
          'thorough': 'sets of 1-4 points'}
TIER = ['quick']

PTS = [(0., 0.), (1., .5), (.5, 1.), (2., 2.), (.25, 1.75), (1.5, .5),
       (2., 0.), (-.5, 1.), (1., 3.), (1.25, 1.25)]
Q = [-.5, 0., .25, 1., 1.5, 2., np.nextafter(1., 0.), 2.5]
EDGES = [(0., 2., 2), (0., 2., 4), np.array([0., .25, 1., 2.])]


def edges_of(b):
    return np.linspace(b[0], b[1], b[2] + 1) if isinstance(b, tuple) else b


def find(e, v):
    """Bin of v: half-open bins, the last one closed; None outside."""
    if v < e[0] or v > e[-1]:
        return None
    for i in range(len(e) - 1):
        if e[i] <= v < e[i + 1]:
            return i
    return len(e) - 2


def ref_hist(px, py, w, xe, ye):
    z = [[0.] * (len(ye) - 1) for _ in range(len(xe) - 1)]
    tot = 0.
    for a, b, c in zip(px, py, w):
        i, j = find(xe, a), find(ye, b)
        if i is not None and j is not None:
            z[i][j] += c
            tot += c
    z = np.array(z)
    area = np.diff(xe)[:, None] * np.diff(ye)[None, :]
    with np.errstate(all='ignore'):
        return z / area / tot


def points(ch, nmax):
    n = ch.pick(list(range(1, nmax + 1)), 'n')
    ids, lo = [], 0
    for i in range(n):
        k = ch.pick(list(range(lo, len(PTS))), f'point {i}')
        ids.append(k)
        lo = k                       # multisets: repeated points allowed
    return ids


def hist_body(ch):
    ids = points(ch, 2 if TIER[0] == 'quick' else 3)
    p = np.array([PTS[i] for i in ids])
    # an always-inside point keeps the total positive
    p = np.concatenate([p, [[.75, 1.5]]])
    bx = ch.pick(EDGES, 'x bins')
    by = ch.pick(EDGES, 'y bins')
    wk = ch.pick([None, 'array'], 'weight')
    mode = ch.pick(['zero', 'fixed'], 'out of range')
    w = None if wk is None else np.arange(1., len(p) + 1)
    kw = {}
    if isinstance(bx, tuple):
        kw |= dict(x_bins=bx[2], x_range=bx[:2])
    else:
        kw |= dict(x_bins=bx, x_range=(bx[0], bx[-1]))
    if isinstance(by, tuple):
        kw |= dict(y_bins=by[2], y_range=by[:2])
    else:
        kw |= dict(y_bins=by, y_range=(by[0], by[-1]))
    h = Histogram2D(out_of_range=mode, **kw) if mode == 'fixed' else \
        Histogram2D(**kw)
    x, y = p[:, 0].copy(), p[:, 1].copy()
    fz = Frozen(x=x, y=y, w=w)
    r = h.fit(x, y, w) if w is not None else h.fit(x, y)
    need(r is h, 'fit does not return the estimator')
    xe, ye = edges_of(bx), edges_of(by)
    z = ref_hist(x, y, np.ones(len(p)) if w is None else w, xe, ye)
    qx, qy = (a.ravel() for a in np.meshgrid(Q, Q, indexing='ij'))
    fq = Frozen(qx=qx, qy=qy)
    got = h.on(qx, qy)
    exp = []
    for a, b in zip(qx, qy):
        i, j = find(xe, a), find(ye, b)
        if i is None or j is None:
            if mode == 'zero':
                exp.append(0.)
                continue
            i = find(xe, min(max(a, xe[0]), xe[-1]))
            j = find(ye, min(max(b, ye[0]), ye[-1]))
        exp.append(z[i, j])
    for k in range(len(exp)):
        if not abs(got[k] - exp[k]) < 1e-9 * max(1, abs(exp[k])):
            need(False, 'density at (%r, %r) is %r, expected %r', qx[k],
                 qy[k], got[k], exp[k])
    # asking does not change the answer, and 2-d queries keep their shape
    close(h.on(qx, qy), exp, 'asked again')
    close(h.on(qx.reshape(8, 8), qy.reshape(8, 8)),
          np.array(exp).reshape(8, 8), '2-d query')
    # density integrates to one
    close((h.on(*[a.ravel() for a in np.meshgrid(
        .5 * (xe[1:] + xe[:-1]), .5 * (ye[1:] + ye[:-1]), indexing='ij')])
        .reshape(z.shape) * np.diff(xe)[:, None] * np.diff(ye)).sum(), 1.,
        'integral')
    # meshes
    for idx in ('xy', 'ij'):
        m = h.on_meshgrid(np.array([.1, .9, 1.7]), np.array([.2, 1.9]),
                          indexing=idx)
        check_mesh(h, m, [.1, .9, 1.7], [.2, 1.9], idx)
    m = h.on_meshgrid(x_range=(0., 2.), y_range=(.5, 1.5), n_x=4, n_y=3)
    check_mesh(h, m, np.linspace(0., 2., 4), np.linspace(.5, 1.5, 3), 'xy')
    m = h.on_meshgrid()
    check_mesh(h, m, np.linspace(0., 1., 10), np.linspace(0., 1., 10), 'xy')
    fz.check('fit')
    fq.check('on')
    s = h.to_simple_repr()
    need(s['type'] == 'Histogram2D' and s['out_of_range'] == mode and
         len(repr(h)) > 0, 'repr')
    return tuple(ids), str(bx), str(by), wk, mode


def check_mesh(h, m, x, y, idx):
    eq(m.x, x, 'x of the mesh')
    eq(m.y, y, 'y of the mesh')
    n, k = len(x), len(y)
    sh = (k, n) if idx == 'xy' else (n, k)
    for a in (m.x_m, m.y_m, m.z_m):
        need(a.shape == sh, 'mesh shape %s for %s', a.shape, idx)
    for i in range(n):
        for j in range(k):
            at = (j, i) if idx == 'xy' else (i, j)
            v = float(h.on(np.array([x[i]]), np.array([y[j]]))[0])
            need(m.x_m[at] == x[i] and m.y_m[at] == y[j], 'mesh nodes')
            need(abs(m.z_m[at] - v) <= 1e-12 * max(1., abs(v)) or
                 m.z_m[at] == v, 'mesh value at %s: %r, expected %r', at,
                 m.z_m[at], v)


def mode_body(ch):
    v = ch.pick(['zero', 'fixed', 'nearest', None, ''], 'out_of_range')
    o = outcome(Histogram2D, out_of_range=v)
    need((o[0] == 'ok') == (v in ('zero', 'fixed')), 'mode %r: %r', v, o[1])
    if o[0] == 'ok':
        # the bins are 10 x 10 on the unit square unless said otherwise
        h = o[1].fit(np.array([.05, .95]), np.array([.15, .15]))
        close(h.on(np.array([.01, .09, .1, .99]),
                   np.array([.19, .11, .15, .1])), [50., 50., 0., 50.],
              'default bins')
        close(h.on(np.array([-1., 5., .05]), np.array([.15, .15, 7.])),
              [0., 0., 0.] if v == 'zero' else [50., 50., 0.], 'outside')
    return str(v)


def knn_body(ch):
    ids = points(ch, 3 if TIER[0] == 'quick' else 4)
    k = ch.pick([1, 2, 3, 10, None], 'k')
    wk = ch.pick([None, 'array', 'list'], 'weight')
    p = np.array([PTS[i] for i in ids])
    w = None if wk is None else np.arange(1., len(p) + 1)
    e = KNearestNeighbor2D() if k is None else KNearestNeighbor2D(k)
    x, y = p[:, 0].copy(), p[:, 1].copy()
    r = e.fit(x, y) if w is None else \
        e.fit(x, y, w.tolist() if wk == 'list' else w)
    need(r is e, 'fit does not return the estimator')
    kk = min(10 if k is None else k, len(p))
    qx = np.array([.1, .6, 1.9, -3., 1.3])
    qy = np.array([.2, 1.1, .7, 8., 2.9])
    got = e.on(qx, qy)
    need(got.shape == qx.shape, 'shape')
    for a, b, g in zip(qx, qy, got):
        d = np.hypot(p[:, 0] - a, p[:, 1] - b)
        s = np.sort(d)
        rk = s[kk - 1]
        area = np.pi * rk ** 2
        if w is None:
            ok = [kk / area]
        else:               # points at the same distance may swap
            sure = w[d < rk * (1 - 1e-9)]
            tie = w[np.abs(d - rk) <= rk * 1e-9]
            ok = [(sure.sum() + sum(c)) / area for c in
                  itertools.combinations(tie, kk - len(sure))]
        need(any(abs(g - o) < 1e-9 * o for o in ok),
             'density at (%r, %r): %r, expected one of %s', a, b, g, ok)
    m = e.on_meshgrid(np.array([.1, .6, 1.9]), np.array([.2, 1.1]))
    check_mesh(e, m, [.1, .6, 1.9], [.2, 1.1], 'xy')
    need(e.k == (10 if k is None else k), 'k changed')
    return tuple(ids), k, wk


# ------------------------------------------------------------ drawing densities

SETS = {
    'line': (np.arange(9.), np.arange(9.) % 3),
    'peak': (np.array([0., 1., 1., 1., 1., 2., 2., 3., 0., 3.]),
             np.array([0., 1., 1., 1., 2., 2., 2., 3., 3., 0.])),
    'int': (np.array([0, 1, 2, 3, 3, 3]), np.array([5, 6, 7, 7, 7, 5])),
    'edge': (np.array([0., 0., 0., 4., 4., 1., 3.]),
             np.array([0., 2., 2., 2., 2., 1., 0.])),
    'wide': (np.array([-5., 0., 0., .1, .2, .1, 50.]),
             np.array([1., 1., 1.1, 1.2, 1., 1., 3.])),
    'even': (np.array([0., 1., 0., 1.]), np.array([0., 0., 1., 1.])),
}
_AX = []


def new_ax():
    if not _AX:
        _AX.append(MplFigure().add_subplot())
    r = _AX[0]
    if getattr(r, 'mc_n', 0) % 25 == 0:
        r.clear()
    r.mc_n = getattr(r, 'mc_n', 0) + 1
    return Axes(r)


class Fake(DensityEstimator2D):
    """A smooth density, to be used instead of the histogram."""

    def fit(self, x, y, weight=None):
        self.seen = x, y, weight
        return self

    def on(self, x, y):
        return 1. / (1. + np.asarray(x) ** 2 + 2 * np.asarray(y))


def scat_setup(ch):
    name = ch.pick(sorted(SETS), 'points')
    nb = ch.pick([3, (2, 4), (5, 3)], 'bins')
    rg = ch.pick([None, 'given'], 'range')
    est = ch.pick(['hist', 'fake', 'knn'], 'estimator')
    wk = ch.pick([None, 'array'], 'weight') if est == 'hist' else None
    t = ch.pick([None, 3.], 'transform')
    x, y = SETS[name]
    x, y = x.copy(), y.copy()
    w = np.arange(1., len(x) + 1) if wk else None
    ax = new_ax()
    r = None if rg is None else ((x.min() - 1., x.max() - .5),
                                 (y.min() - .25, y.max() + 2.))
    e = {'hist': None, 'fake': Fake(), 'knn': KNearestNeighbor2D(2)}[est]
    if rg is not None and est == 'hist' and ch.flag('through the axes'):
        s = ax.scatter_2d(x, y, range=r, n_bins=nb, weight=w,
                          z_transform=None if t is None else
                          (lambda z: z * t))
    else:
        s = Scatter2D(ax, x.tolist() if ch.flag('lists') else x, y, range=r,
                      n_bins=nb, weight=w,
                      z_transform=None if t is None else (lambda z: z * t),
                      density_estimator=e)
    need(type(s) is Scatter2D, 'type')
    if r is None:
        r = ((x.min(), x.max()), (y.min(), y.max()))
    nx, ny = (nb, nb) if np.isscalar(nb) else nb
    xe, ye = np.linspace(*r[0], nx + 1), np.linspace(*r[1], ny + 1)
    xc, yc = .5 * (xe[1:] + xe[:-1]), .5 * (ye[1:] + ye[:-1])
    if est == 'hist':
        zz = ref_hist(x, y, np.ones(len(x)) if w is None else w, xe, ye)

        def on(a, b):
            out = []
            for u, v in zip(a, b):
                i, j = find(xe, u), find(ye, v)
                out.append(0. if i is None or j is None else zz[i, j])
            return np.array(out)
    else:
        on = e.on
    f = 1. if t is None else t
    z = np.array([[f * on([u], [v])[0] for u in xc] for v in yc])
    return s, ax, x, y, xe, ye, xc, yc, z, (lambda a, b: f * on(a, b)), \
        (name, str(nb), rg, est, wk, t)


def mesh_body(ch):
    s, ax, x, y, xe, ye, xc, yc, z, on, key = scat_setup(ch)
    close(s.edges[0], xe, 'x edges')
    close(s.edges[1], ye, 'y edges')
    close(s.centers[0], xc, 'x centers')
    close(s.centers[1], yc, 'y centers')
    close(s.step[0], xe[1] - xe[0], 'x step')
    close(s.step[1], ye[1] - ye[0], 'y step')
    close(s.transformed_density_on_mesh, z, 'density on the mesh')
    kw = ch.pick([{}, dict(cmap='viridis', vmin=0., vmax=2.),
                  dict(norm=mc.LogNorm(.01, 1.), alpha=.5)], 'options')
    r = s.mesh(**kw)
    need(r is s, 'mesh does not return itself')
    q = s.plot_outs[-1]
    need(q.axes is ax._raw, 'drawn elsewhere')
    a = np.ma.getdata(q.get_array())
    close(a.reshape(z.shape), z, 'colours of the mesh')
    c = q.get_coordinates()
    close(c[..., 0], np.broadcast_to(xe, (len(ye), len(xe))), 'mesh x')
    close(c[..., 1], np.broadcast_to(ye[:, None], (len(ye), len(xe))),
          'mesh y')
    need(q.get_cmap().name == kw.get('cmap', 'jet'), 'colour map')
    if 'vmin' in kw:
        need((q.norm.vmin, q.norm.vmax) == (0., 2.), 'colour range')
    if 'norm' in kw:
        need(q.norm is kw['norm'] and q.get_alpha() == .5, 'norm')
    x0, y0 = SETS[key[0]]
    eq(x, x0, 'data x changed')
    eq(y, y0, 'data y changed')
    return key, str(sorted(kw))


PS = [None, (.9, .5), (.5,), (.99, .75, .5, .25), np.array([.8, .3]),
      [1., .01], (.95, 0.)]


def mass_ok(z, level, p, what):
    """level is the highest density whose super-level set holds p of it."""
    m = z.sum()
    above = z[z >= level * (1 - 1e-12)].sum() / m
    strict = z[z > level * (1 + 1e-12)].sum() / m
    need(above >= p - 1e-9, '%s: only %r of the mass at or above level %r, '
         'expected %r', what, above, level, p)
    need(strict <= p + 1e-9, '%s: level %r too low, %r above it, expected '
         '%r', what, level, strict, p)


def level_body(ch):
    s, ax, x, y, xe, ye, xc, yc, z, on, key = scat_setup(ch)
    ps = ch.pick(PS, 'percentiles')
    real = (.99, .95, .68) if ps is None else ps
    lv = s.z_level_at_percentile(real)
    need(len(lv) == len(real), 'number of levels')
    for l, p in zip(lv, real):
        need(np.min(np.abs(z - l)) <= 1e-12 * max(abs(l), 1), 'level %r is '
             'not a density of the mesh', l)
        if p > 0:
            mass_ok(z.ravel(), l, p, f'{p}')
    o = np.argsort(np.asarray(real))
    need(np.all(np.diff(np.asarray(lv)[o]) <= 1e-15), 'levels not monotonic')
    zs, cm = s.cum_prob_mass
    close(zs, np.sort(z.ravel()), 'sorted densities')
    close(cm, np.cumsum(np.sort(z.ravel())) / z.sum(), 'cumulative mass')
    return key, str(ps), rnd(lv)


def contour_body(ch):
    s, ax, x, y, xe, ye, xc, yc, z, on, key = scat_setup(ch)
    ps = ch.pick([None, (.9, .5), (.99, .75, .5, .25)], 'percentiles')
    fill = ch.flag('fill')
    kw = ch.pick([{}, dict(colors=['r', 'b', 'g', 'y']),
                  dict(lw=1.5, ls='--')], 'options')
    real = (.99, .95, .68) if ps is None else ps
    lv = s.z_level_at_percentile(real)
    if np.any(np.diff(lv) <= 0):
        return None                  # matplotlib wants increasing levels
    a = dict(kw) if ps is None else dict(kw, ps=ps)
    r = s.contour(use_fill=fill, **a)
    need(r is s, 'contour does not return itself')
    q = s.plot_outs[-1]
    need(q.filled == fill and q.axes is ax._raw, 'kind of contour')
    close(q.levels, lv, 'levels')
    zz = s.transformed_density_on_mesh
    close(zz, z, 'density on the mesh')
    z = zz              # contours of flat regions depend on the last digit
    ref = getattr(ax._raw, 'contourf' if fill else 'contour')(
        xc, yc, z, levels=lv, colors='k')
    for p1, p2 in zip(q.get_paths(), ref.get_paths()):
        close(p1.vertices, p2.vertices, 'contour line', atol=1e-9)
    if not fill:
        w = np.atleast_1d(q.get_linewidth())
        n = len(real)
        if 'lw' in kw:
            need(set(w.tolist()) == {1.5}, 'line widths %s', w)
        else:                        # inner contours are thicker
            close(w[:n], np.linspace(1., 3., n), 'line widths')
        c = np.asarray(q.get_edgecolor())
        if 'colors' in kw:
            close(c[0], mc.to_rgba('r'), 'first colour')
            close(c[1], mc.to_rgba('b'), 'second colour')
        else:
            close(c, np.broadcast_to(mc.to_rgba('k'), c.shape), 'colour')
        if 'ls' not in kw:
            l = q.get_linestyle()
            need(len(l) >= n and l[n - 1][1] is None, 'innermost line is '
                 'not solid: %s', l)
            need(all(d[1] is not None for d in l[:n - 1]), 'outer lines are '
                 'not dashed: %s', l)
    return key, str(ps), fill, str(sorted(kw))


def hide_body(ch):
    s, ax, x, y, xe, ye, xc, yc, z, on, key = scat_setup(ch)
    p = ch.pick([None, .5, .8, .95, .2], 'hidden in')
    kw = ch.pick([{}, dict(marker='s', s=7, c='r'),
                  dict(edgecolors='b', alpha=.5, linewidths=3)], 'options')
    r = s.scatter(**kw) if p is None else s.scatter(hidden_in_p=p, **kw)
    need(r is s, 'scatter does not return itself')
    q = s.plot_outs[-1]
    got = np.asarray(q.get_offsets())
    if p is None:
        eq(got, np.column_stack([x, y]).astype(float), 'points')
    else:
        d = on(x, y)
        zs = np.sort(z.ravel())
        lv = float(s.z_level_at_percentile([p])[0])
        mass_ok(zs, lv, p, 'hidden region')
        # points of the region are hidden, those well outside are shown
        i = np.searchsorted(zs, lv * (1 - 1e-9))
        lower = zs[max(i - 1, 0)]
        shown = [tuple(t) for t in got.tolist()]
        for a, b, v in zip(x, y, d):
            t = (float(a), float(b))
            if v >= lv * (1 + 1e-12):
                need(t not in shown, 'point %s of density %r is shown, '
                     'although the region begins at %r', t, v, lv)
            elif v < lower * (1 - 1e-12):
                need(t in shown, 'point %s of density %r is hidden, although '
                     'the region begins at %r', t, v, lv)
        al = {(float(a), float(b)) for a, b in zip(x, y)}
        need(set(shown) <= al, 'points that are not in the data')
    need(q.axes is ax._raw, 'drawn elsewhere')
    if p is None or len(got):
        fc = q.get_facecolor()[0]
        close(fc[:3], mc.to_rgba(kw.get('c', 'k'))[:3], 'colour')
        need(q.get_sizes()[0] == kw.get('s', 10), 'size')
        if 'alpha' in kw:
            need(q.get_alpha() == .5 and q.get_linewidth()[0] == 3, 'options')
        elif 'edgecolors' not in kw:
            need(len(q.get_edgecolor()) == 0, 'edges drawn')
    return key, p, str(sorted(kw)), len(got)


def scenarios(tier):
    TIER[0] = tier
    return [Tree('histogram', hist_body), Tree('modes', mode_body),
            Tree('neighbours', knn_body), Tree('mesh', mesh_body),
            Tree('levels', level_body), Tree('contour', contour_body),
            Tree('hidden', hide_body)]
