"""Arranging axes and sub-figures; arrays of axes; colour bars."""
import itertools

import numpy as np
import matplotlib as mpl
from matplotlib import pyplot as plt
from matplotlib.figure import Figure as MplFigure

from pyhipp import plot
from pyhipp.plot.axes import Axes, AxesArray
from pyhipp.plot.color import Colormap, Normalize, ScalarMappable
from pyhipp.plot.figure import Figure, SubFigure, SubFigureArray

from ..engine import Bfs, System, Tree
from ..util import need, outcome, eq, close

LEVEL = 'exploration'
ASSUMPTIONS = ['matplotlib reports the positions it draws at']
RULE = "every grid, frame, spacing, sharing, indexing or colour-bar option of the alphabets; distinct = distinct (option, outcome) combinations"
BOUNDS = {'quick': '10 grid shapes x 9 frame extents x 5 spacings x 3 ratios '
                   '(any two of them away from the default), 9 sharing modes; '
                   'sub-figure grids of up to 2x3; axes arrays of 8 shapes',
          'thorough': 'all combinations, grids of up to 3x4'}
TIER = ['quick']

NS = [1, 2, 3, (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]
NS_T = NS + [4, (3, 3), (3, 4)]


def shape_of(n):
    r, c = (1, n) if np.isscalar(n) else n
    if r * c == 1:
        return (r, c), None
    if r == 1:
        return (r, c), (c,)
    if c == 1:
        return (r, c), (r,)
    return (r, c), (r, c)


FRAMES = [None, ('extent', (.9, .8, .1, .2)), ('extent', (.15, .95)),
          ('extent', (.85, None, .05, None)), ('margin', .1),
          ('margin', (.05, .15)), ('margin', (.1, .2, .3, .05)),
          ('extent', None), ('margin', 0.)]
SPACES = [None, 0., .3, (.1, .5), (None, .4), [.6, 0.]]
RATIOS = [None, 'w', 'h', 'wh']


def frame_of(fr):
    """top, right, bottom, left"""
    d = mpl.rcParams
    out = [d['figure.subplot.top'], d['figure.subplot.right'],
           d['figure.subplot.bottom'], d['figure.subplot.left']]
    if fr is None or fr[1] is None:
        return out
    k, v = fr
    if k == 'extent':
        if len(v) == 2:
            v = (v[1], v[1], v[0], v[0])
        return [o if x is None else x for o, x in zip(out, v)]
    if np.isscalar(v):
        v = (v,) * 4
    elif len(v) == 2:
        v = (v[1], v[1], v[0], v[0])
    return [1 - v[0], 1 - v[1], v[2], v[3]]


def cells(rc, frame, space, ratios):
    """Geometry of the cells: rows from the top, (x0, y0, x1, y1)."""
    r, c = rc
    top, right, bottom, left = frame
    ws, hs = space
    wr, hr = ratios
    wr = np.ones(c) if wr is None else np.asarray(wr, float)
    hr = np.ones(r) if hr is None else np.asarray(hr, float)
    # a gap is the given fraction of the mean cell size
    w = (right - left) / (c + ws * (c - 1))
    h = (top - bottom) / (r + hs * (r - 1))
    cw, chh = wr / wr.sum() * w * c, hr / hr.sum() * h * r
    out = np.empty((r, c, 4))
    for i in range(r):
        y1 = top - chh[:i].sum() - i * hs * h
        for j in range(c):
            x0 = left + cw[:j].sum() + j * ws * w
            out[i, j] = x0, y1 - chh[i], x0 + cw[j], y1
    return out


def spaces_of(sp):
    w, h = (sp, sp) if sp is None or np.isscalar(sp) else sp
    d = mpl.rcParams
    return (d['figure.subplot.wspace'] if w is None else w,
            d['figure.subplot.hspace'] if h is None else h)


def ratios_of(ra, rc):
    if ra is None:
        return None, (None, None)
    w = [1. + j for j in range(rc[1])] if 'w' in ra else None
    h = [3. - i for i in range(rc[0])] if 'h' in ra else None
    if rc[0] > 3 and h:
        h = [1. + i for i in range(rc[0])]
    return (w, h), (w, h)


def pick_layout(ch):
    n = ch.pick(NS if TIER[0] == 'quick' else NS_T, 'n')
    rc, sh = shape_of(n)
    if TIER[0] == 'quick':
        two = ch.pick([0, 1, 2], 'default part')
    else:
        two = None
    fr = None if two == 0 else ch.pick(FRAMES, 'frame')
    sp = None if two == 1 else ch.pick(SPACES, 'space')
    ra = None if two == 2 else ch.pick(RATIOS, 'ratios')
    return n, rc, sh, fr, sp, ra


def as_grid(out, rc, sh, kind):
    one, arr = (Axes, AxesArray) if kind == 'axes' else \
        (SubFigure, SubFigureArray)
    if sh is None:
        need(type(out) is one, 'a single cell gives %s', type(out).__name__)
        g = np.empty((1, 1), object)
        g[0, 0] = out
        return g
    need(type(out) is arr, 'several cells give %s', type(out).__name__)
    if kind == 'axes':
        need(out.shape == sh and out.size == rc[0] * rc[1], 'shape %s size %s',
             out.shape, out.size)
    need(len(out) == sh[0], 'length %d of shape %s', len(out), sh)
    g = np.empty(sh, object)
    for ix in np.ndindex(*sh):
        g[ix] = out[ix]
        need(type(g[ix]) is one, 'element %s', type(g[ix]).__name__)
    return g.reshape(rc)


def layout_body(ch):
    n, rc, sh, fr, sp, ra = pick_layout(ch)
    via = ch.pick(['figure', 'subplots'], 'via') if TIER[0] == 'quick' or \
        fr is None else 'figure'
    rarg, rr = ratios_of(ra, rc)
    kw = {}
    if fr is not None:
        kw[fr[0]] = fr[1]
    if sp is not None:
        kw['space'] = sp
    if rarg is not None:
        kw['ratios'] = rarg
    frozen = str(kw)
    if via == 'figure':
        f = Figure(MplFigure())
        out = f.subplots(n, **kw)
    else:
        f, out = plot.subplots(n, layout='none', **kw)
        plt.close(f._raw)
    need(str(kw) == frozen, 'arguments changed')
    g = as_grid(out, rc, sh, 'axes')
    exp = cells(rc, frame_of(fr), spaces_of(sp), rr)
    need(len(f._raw.axes) == rc[0] * rc[1], 'number of axes')
    for i in range(rc[0]):
        for j in range(rc[1]):
            p = g[i, j]._raw.get_position()
            close([p.x0, p.y0, p.x1, p.y1], exp[i, j],
                  f'position of cell {i},{j}', atol=1e-9)
    if via == 'subplots':
        close(f._raw.get_size_inches(), (4 * rc[1], 4 * rc[0]), 'figure size')
    return str(n), str(fr), str(sp), str(ra)


SHARES = [False, True, 'all', 'none', 'row', 'col', (True, False),
          ('col', 'row'), ('row', 'all'), (False, 'col'), ['none', True]]


def share_body(ch):
    n = ch.pick([2, (2, 1), (2, 2), (2, 3), (3, 2)], 'n')
    rc, sh = shape_of(n)
    s = ch.pick(SHARES, 'share')
    sx, sy = s if isinstance(s, (tuple, list)) else (s, s)
    via = ch.pick(['figure', 'subplots'], 'via')
    if via == 'figure':
        out = Figure(MplFigure()).subplots(n, share=s)
    else:
        f, out = plot.subplots(n, share=s)
        plt.close(f._raw)
    g = as_grid(out, rc, sh, 'axes')
    i0 = ch.pick(list(range(rc[0])), 'row')
    j0 = ch.pick(list(range(rc[1])), 'column')
    g[i0, j0].lim((2., 5.), (-3., 8.))

    def linked(m, i, j):
        if (i, j) == (i0, j0):
            return True
        if m in (True, 'all'):
            return True
        if m == 'row':
            return i == i0
        if m == 'col':
            return j == j0
        return False
    for i in range(rc[0]):
        for j in range(rc[1]):
            r = g[i, j]._raw
            eq(r.get_xlim(), (2., 5.) if linked(sx, i, j) else (0., 1.),
               f'x limits of {i},{j}')
            eq(r.get_ylim(), (-3., 8.) if linked(sy, i, j) else (0., 1.),
               f'y limits of {i},{j}')
    return str(n), str(s), i0, j0


def figure_body(ch):
    """Sizes, resolution and pass-through options of the shortcuts."""
    fn = ch.pick(['figure', 'subplots', 'subfigures'], 'function')
    size = ch.pick([None, 3, (5, 2), 2.5], 'figsize')
    dpi = ch.pick([None, 50], 'dpi')
    lay = ch.pick([0, None, 'constrained', 'compressed', 'tight', 'none'],
                  'layout')
    before = set(plt.get_fignums())
    kw = {} if lay == 0 else dict(layout=lay)
    if size is not None:
        kw['figsize'] = size
    if fn == 'figure':
        if dpi:
            kw['dpi'] = dpi
        f = plot.figure(facecolor='y', **kw)
        exp = None
    else:
        if dpi:
            kw['figure_kw'] = dict(dpi=dpi, facecolor='y')
        else:
            kw['figure_kw'] = dict(facecolor='y')
        n = ch.pick([1, 2, (2, 3)], 'n')
        sub = ch.pick([None, 2, (1.5, 3)], 'subsize')
        sp = ch.pick([None, .2], 'space')
        if sub is not None:
            kw['subsize'] = sub
        if sp is not None:
            kw['space'] = sp
        f, out = getattr(plot, fn)(n, **kw)
        rc, sh = shape_of(n)
        as_grid(out, rc, sh, 'axes' if fn == 'subplots' else 'fig')
        sub = (4 if fn == 'subplots' else 5) if sub is None else sub
        w, h = (sub, sub) if np.isscalar(sub) else sub
        exp = w * rc[1], h * rc[0]
    need(type(f) is Figure, 'type of the figure')
    raw = f._raw
    new = set(plt.get_fignums()) - before
    need(len(new) == 1 and plt.gcf() is raw, 'one new current figure')
    eng = type(raw.get_layout_engine()).__name__
    comp = getattr(raw.get_layout_engine(), '_compress', None)
    plt.close(raw)
    if size is not None:
        exp = (size, size) if np.isscalar(size) else size
    elif exp is None:
        exp = mpl.rcParams['figure.figsize']
    close(raw.get_size_inches(), exp, 'size of the figure')
    need(raw.get_dpi() == (dpi or mpl.rcParams['figure.dpi']), 'dpi %s',
         raw.get_dpi())
    need(mpl.colors.to_hex(raw.get_facecolor()) == '#bfbf00', 'facecolor')
    # documented: tight if no spacing is given
    if fn == 'figure':
        want = 'tight' if lay == 0 else lay
    elif fn == 'subplots':
        want = ('tight' if sp is None else None) if lay in (0, None) else lay
    else:
        want = None if lay == 0 else lay
    we = {'tight': 'TightLayoutEngine', 'none': 'NoneType', None: 'NoneType',
          'constrained': 'ConstrainedLayoutEngine',
          'compressed': 'ConstrainedLayoutEngine'}[want]
    need(eng == we, 'layout engine %s for %s', eng, want)
    if want in ('constrained', 'compressed'):
        need(bool(comp) == (want == 'compressed'), 'compressed %s', comp)
    return fn, str(size), dpi, str(lay), str(exp)


def extra_body(ch):
    """Options for every axes and for the grid pass through."""
    via = ch.pick(['figure', 'subplots', 'subfigure', 'subfigures'], 'via')
    n = ch.pick([1, 2, (2, 2)], 'n')
    rc, sh = shape_of(n)
    skw = ch.pick([None, dict(xlim=(0., 7.), facecolor='r'),
                   dict(projection='polar')], 'subplot_kw')
    gkw = ch.pick([{}, dict(left=.3), dict(wspace=.9)], 'gridspec')
    kw = dict(gkw)
    if skw is not None:
        kw['mpl_subplot_kw'] = skw
    if via == 'subplots':
        f, out = plot.subplots(n, space=0., margin=.1, **kw)
        plt.close(f._raw)
        outs = [out]
    elif via == 'figure':
        outs = [Figure(MplFigure()).subplots(n, space=0., margin=.1, **kw)]
    elif via == 'subfigure':
        sf = Figure(MplFigure()).subfigures(1)
        outs = [sf.subplots(n, space=0., margin=.1, **kw)]
    else:
        m = ch.pick([2, (2, 1), (2, 2)], 'sub-figures')
        sf = Figure(MplFigure()).subfigures(m)
        o = sf.subplots(n, space=0., margin=.1, **kw)
        msh = shape_of(m)[1]
        need(np.shape(np.empty(msh)) == o.shape, 'shape of the subplots of '
             'sub-figures: %s', o.shape)
        outs = []
        for ix in np.ndindex(*msh):
            outs.append(o[ix])
            first = as_grid(o[ix], rc, sh, 'axes')[0, 0]._raw
            need(first.figure is sf[ix]._raw, 'axes %s in another '
                 'sub-figure', ix)
    fr = [.9, .9, .1, gkw.get('left', .1)]
    exp = cells(rc, fr, (gkw.get('wspace', 0.), 0.), (None, None))
    for out in outs:
        g = as_grid(out, rc, sh, 'axes')
        for i in range(rc[0]):
            for j in range(rc[1]):
                r = g[i, j]._raw
                if skw and 'projection' in skw:
                    need(r.name == 'polar', 'projection')
                elif skw:
                    eq(r.get_xlim(), (0., 7.), 'limits by subplot_kw')
                if not (skw and 'projection' in skw):
                    p = r.get_subplotspec().get_position(r.figure)
                    t = r.get_position()
                    close([t.x0, t.y0, t.x1, t.y1], sub_pos(r, exp[i, j]),
                          'position', atol=1e-9)
    need(skw is None or skw in (dict(xlim=(0., 7.), facecolor='r'),
                                dict(projection='polar')), 'kw changed')
    return via, str(n), str(skw), str(gkw)


def sub_pos(r, e):
    """Cell e of a (sub-)figure, as matplotlib reports it (in fractions of the
    enclosing sub-figure)."""
    return e


def subfig_body(ch):
    n = ch.pick([1, 2, 3, (1, 1), (2, 1), (2, 2), (2, 3)], 'n')
    rc, sh = shape_of(n)
    sp = ch.pick([None, 0., .3, (.1, .5)], 'space')
    ra = ch.pick(RATIOS, 'ratios')
    via = ch.pick(['figure', 'subfigures', 'nested'], 'via')
    rarg, rr = ratios_of(ra, rc)
    kw = {}
    if sp is not None:
        kw['space'] = sp
    if rarg is not None:
        kw['ratios'] = rarg
    if via == 'subfigures':
        f, out = plot.subfigures(n, facecolor='r', **kw)
        plt.close(f._raw)
        raw = f._raw
    elif via == 'figure':
        f = Figure(MplFigure())
        out = f.subfigures(n, facecolor='r', **kw)
        raw = f._raw
    else:
        f = Figure(MplFigure()).subfigures(1)
        out = f.subfigures(n, facecolor='r', **kw)
        raw = f._raw
    g = as_grid(out, rc, sh, 'fig')
    w, h = rr
    w = np.ones(rc[1]) if w is None else np.asarray(w)
    h = np.ones(rc[0]) if h is None else np.asarray(h)
    bb = raw.bbox
    need(len(raw.subfigs) == rc[0] * rc[1], 'number of sub-figures')
    ref = MplFigure().subfigures(
        *rc, squeeze=False, width_ratios=rr[0], height_ratios=rr[1],
        **({} if sp is None else dict(zip(
            ('wspace', 'hspace'), (sp, sp) if np.isscalar(sp) else sp))))
    for i in range(rc[0]):
        for j in range(rc[1]):
            r = g[i, j]._raw
            b, e = r.bbox, ref[i, j].bbox
            o = ref[0, 0].figure.bbox if hasattr(ref[0, 0], 'figure') else bb
            o = ref[0, 0].get_figure(root=True).bbox
            close([(b.x0 - bb.x0) / bb.width, (b.y0 - bb.y0) / bb.height,
                   b.width / bb.width, b.height / bb.height],
                  [e.x0 / o.width, e.y0 / o.height, e.width / o.width,
                   e.height / o.height], f'sub-figure {i},{j}', atol=1e-9)
            need(mpl.colors.to_hex(r.get_facecolor()) == '#ff0000',
                 'facecolor')
            if sp is None or sp == 0.:
                close([(b.x0 - bb.x0) / bb.width, b.width / bb.width],
                      [w[:j].sum() / w.sum(), w[j] / w.sum()], 'columns',
                      atol=1e-9)
                close([(b.y1 - bb.y0) / bb.height, b.height / bb.height],
                      [1 - h[:i].sum() / h.sum(), h[i] / h.sum()], 'rows',
                      atol=1e-9)
    if sh is not None:
        it = list(out)
        need(len(it) == len(out), 'iteration')
        for k, x in enumerate(it):
            if len(sh) == 1:
                need(x is out[k], 'iteration yields another object')
            else:
                need(type(x) is SubFigureArray and
                     all(a is b for a, b in zip(x, out[k])), 'rows')
        need(len(repr(out)) > 0, 'repr')
    return str(n), str(sp), str(ra), via


# ----------------------------------------------------------------- axes arrays

SHAPES = [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3)]
_POOL = []


def pool(k):
    while len(_POOL) < k:
        _POOL.append(MplFigure().add_subplot())
    return _POOL[:k]


def keys_for(sh):
    n = sh[0]
    ks = [0, -1, n - 1, slice(None), slice(0, 1), slice(None, None, -1),
          slice(0, 0), [0], [n - 1, 0], np.array([True] + [False] * (n - 1)),
          Ellipsis, n, -n - 1]
    if len(sh) == 2:
        m = sh[1]
        ks += [(0, 0), (n - 1, m - 1), (-1, -1), (slice(None), 0),
               (0, slice(None)), (slice(None), slice(None, None, 2)),
               (slice(0, 1), slice(0, 1)), (np.arange(n) % n, [0] * n),
               (0, m), (slice(None), [m - 1]),
               np.arange(n * m).reshape(n, m) % 2 == 0]
    else:
        ks += [(0, 0)]
    return ks


def array_body(ch):
    sh = ch.pick(SHAPES, 'shape')
    k = int(np.prod(sh))
    raws = pool(k)
    src = ch.pick(['raw array', 'raw list', 'axes list', 'axes array',
                   'object array'], 'source')
    ws = [Axes(r) for r in raws]
    ro = np.empty(k, object)
    ro[:] = raws
    wo = np.empty(k, object)
    wo[:] = ws
    ro, wo = ro.reshape(sh), wo.reshape(sh)
    if src == 'raw array':
        a = AxesArray(ro)
    elif src == 'raw list':
        a = AxesArray(ro.tolist())
    elif src == 'axes list':
        a = AxesArray(wo.tolist())
    elif src == 'axes array':
        a = AxesArray(AxesArray(wo))
    else:
        a = AxesArray(wo)
    if src.startswith('raw'):
        wo = np.empty(sh, object)
        for ix in np.ndindex(*sh):
            wo[ix] = a[ix]
            need(type(wo[ix]) is Axes and wo[ix]._raw is ro[ix],
                 'element %s wraps another axes', ix)

    def same(x, ref, what):
        if isinstance(ref, Axes):
            need(x is ref, '%s: another axes', what)
            return
        need(type(x) is AxesArray, '%s: %s', what, type(x).__name__)
        need(x.shape == ref.shape, '%s: shape %s instead of %s', what,
             x.shape, ref.shape)
        need(x.size == ref.size, '%s: size', what)
        for p, q in zip(x.to_list(), ref.ravel().tolist()):
            need(p is q, '%s: another axes', what)
        if ref.ndim:
            need(len(x) == len(ref), '%s: length', what)

    same(a, wo, 'array')
    same(a.T, wo.T, 'transposed')
    same(a.flat, wo.ravel(), 'flat')
    need(len(a.to_list()) == k, 'flat list')
    nested = a.to_list(flat=False)
    need(nested == wo.tolist(), 'nested list')
    need(a.to_simple_repr() == wo.tolist(), 'simple representation')
    for x, y in zip(a, wo):
        same(x, y, 'iteration')
    need(len(list(a)) == len(wo), 'iteration length')
    ix = ch.pick(list(range(len(keys_for(sh)))), 'key')
    key = keys_for(sh)[ix]
    o = outcome(lambda: wo[key])
    g = outcome(lambda: a[key])
    need(o[0] == g[0], 'key %r: %r, expected %r', key, g[1], o[1])
    if o[0] == 'ok':
        r = o[1]
        if isinstance(r, np.ndarray) and r.dtype != object:
            r = r.astype(object)
        same(g[1], r, f'key {key!r}')
    # the views share the axes: a format set through one shows in the other
    if k > 1 and src == 'raw array':
        a.T.c('r', .5)
        for w in wo.ravel():
            w.plot([0., 1.], [0., 1.])
            need(mpl.colors.to_rgba(w._raw.lines[-1].get_color(), w._raw.
                 lines[-1].get_alpha())[:3] == (1., 0., 0.),
                 'format through a view')
    return sh, src, ix


# ----------------------------------------------------------------- colour bars

def cbar_body(ch):
    cm = ch.pick(['viridis', 'jet'], 'cmap')
    rng = ch.pick([(0., 1.), (-2., 5.)], 'range')
    m = ScalarMappable.from_cmap(
        Colormap(plt.get_cmap(cm)),
        Normalize(mpl.colors.Normalize(*rng)))
    rawm = ch.flag('raw mappable')
    n = ch.pick([1, 2, (2, 2)], 'n')
    f = Figure(MplFigure())
    axs = f.subplots(n)
    lst = [axs] if isinstance(axs, Axes) else axs.to_list()
    raws = [a._raw for a in lst]
    how = ch.pick(['first', 'all', 'list', 'raw list', 'iter', 'cax'], 'ax')
    loc = ch.pick([None, 'top', 'left', 'bottom', 'right'], 'location')
    lab = ch.pick([None, 'L'], 'label')
    ticks = ch.pick([None, [rng[0], rng[1]]], 'ticks')
    n_ax = len(f._raw.axes)
    pos = [a.get_position().bounds for a in raws]
    kw = dict(location=loc) if loc else {}
    if lab:
        kw['label'] = lab
    if ticks:
        kw['ticks'] = ticks
    cax = None
    if how == 'cax':
        cax = Axes(f._raw.add_axes([.92, .1, .02, .8]))
        kw['cax'] = cax
        n_ax += 1
    elif how == 'first':
        kw['ax'] = lst[0]
    elif how == 'all':
        kw['ax'] = axs
    elif how == 'list':
        kw['ax'] = lst
    elif how == 'iter':
        kw['ax'] = iter(lst)
    else:
        kw['ax'] = raws
    r = f.colorbar(m._raw if rawm else m, **kw)
    need(r is f, 'colorbar does not return the figure')
    cb = f.last_draw._raw
    need(cb.mappable is m._raw, 'mappable of the bar')
    need(cb.cmap.name == cm and (cb.vmin, cb.vmax) == rng, 'scale of the bar')
    need(len(f._raw.axes) == n_ax + (0 if cax else 1), 'axes added')
    if cax:
        need(cb.ax is cax._raw, 'not drawn in the given axes')
        need([a.get_position().bounds for a in raws] == pos, 'axes moved')
    else:
        moved = [a.get_position().bounds != p for a, p in zip(raws, pos)]
        need(moved == ([True] + [False] * (len(raws) - 1)
                       if how == 'first' else [True] * len(raws)),
             'space taken from %s', moved)
        ori = 'horizontal' if loc in ('top', 'bottom') else 'vertical'
        need(cb.orientation == ori, 'orientation %s', cb.orientation)
        # the bar takes a tenth of the space, next to the axes without a gap
        par = [a.get_position() for a in
               (raws[:1] if how == 'first' else raws)]
        x0, x1 = min(p.x0 for p in par), max(p.x1 for p in par)
        y0, y1 = min(p.y0 for p in par), max(p.y1 for p in par)
        b = cb.ax.get_position(original=True)
        side = loc or 'right'
        gap = {'right': b.x0 - x1, 'left': x0 - b.x1, 'top': b.y0 - y1,
               'bottom': y0 - b.y1}[side]
        close(gap, 0., 'gap between axes and bar', atol=1e-9)
    lb = (cb.ax.get_xlabel() if cb.orientation == 'horizontal' else
          cb.ax.get_ylabel())
    need(lb == (lab or ''), 'label %r', lb)
    if ticks:
        close(cb.get_ticks(), ticks, 'ticks')
    return cm, how, loc, lab, bool(ticks), str(n), rawm


def scenarios(tier):
    TIER[0] = tier
    return [Tree('layout', layout_body), Tree('share', share_body),
            Tree('figure', figure_body), Tree('options', extra_body),
            Tree('subfigures', subfig_body), Tree('arrays', array_body),
            Tree('colorbar', cbar_body)]
