"""Drawing with the per-axes formats."""
import itertools

import numpy as np
from matplotlib import colors as mc
from matplotlib.figure import Figure as MplFigure

from pyhipp import plot
from pyhipp.plot.axes import Axes, AxesArray

from ..engine import Bfs, System, Tree
from ..util import need, outcome, eq, close

LEVEL = 'model_checking'
ASSUMPTIONS = ['matplotlib draws what its artists say',
               'the marker style is always named when the marker is formatted']
BOUNDS = {'quick': 'format histories of depth 2 on two axes, all seven artist '
                   'kinds drawn after each; every documented keyword of every '
                   'artist kind overridden once; legends at all locations',
          'thorough': 'format histories of depth 3'}

_S = {}


def raws():
    if not _S:
        f = MplFigure()
        _S['f'] = f
        _S['raw'] = [f.add_subplot(1, 2, 1), f.add_subplot(1, 2, 2)]
    return _S['raw']


def wipe(raw):
    raw.clear()


X, Y = np.array([0., 1., 2.]), np.array([1., 3., 2.])
Y2 = np.array([.5, 2., 4.])


class St:
    """What an axes draws with."""

    def __init__(self):
        self.line = dict(c='k', a=1., lw=2.5, ls='-')
        self.marker = dict(style=None, s=10, ec='k', fc='k', ea=1., fa=.3,
                           elw=1.)
        self.errorbar = dict(c='k', a=1., lw=1, capsize=4, capthick=1)
        self.fill = dict(fc='k', ec='k', fa=.2, ea=1, lw=1, ls='-')
        self.text = dict(use_tex=True, c='k', a=1., s=15)

    def canon(self):
        return tuple(tuple(sorted((k, str(v)) for k, v in d.items()))
                     for d in (self.line, self.marker, self.errorbar,
                               self.fill, self.text))

    def color(self, c, a):
        for d in (self.line, self.errorbar):
            if c is not None:
                d['c'] = c
            if a is not None:
                d['a'] = a
        for d in (self.marker, self.fill):
            self.color2(d, c, a)

    @staticmethod
    def color2(d, c, a):
        if c is not None:
            d['ec'] = d['fc'] = c
        if a is not None:
            d['ea'] = d['fa'] = a


def rgba(c, a):
    return tuple(mc.to_rgba(c))[:3] + (float(a),)


def rc(x):
    return tuple(round(float(v), 9) for v in np.asarray(
        mc.to_rgba_array(x)).ravel())


def ls_of(art):
    v = art.get_linestyle()
    return str(v)


def see_line(l):
    return dict(color=rc(l.get_color()), lw=float(l.get_linewidth()),
                ls=ls_of(l), marker=str(l.get_marker()),
                ms=float(l.get_markersize()),
                mew=float(l.get_markeredgewidth()),
                mec=rc(l.get_markeredgecolor()),
                mfc=rc(l.get_markerfacecolor()),
                data=l.get_xydata().tolist(), label=lab(l))


def lab(a):
    s = str(a.get_label())
    return None if s.startswith('_') or s in ('None', '') else s


def see_coll(c):
    p = c.get_paths()
    return dict(fc=rc(c.get_facecolor()), ec=rc(c.get_edgecolor()),
                lw=[float(v) for v in np.atleast_1d(c.get_linewidth())],
                ls=ls_of(c), off=np.asarray(c.get_offsets()).tolist(),
                paths=[q.vertices.tolist() for q in p],
                sizes=[float(v) for v in c.get_sizes()]
                if hasattr(c, 'get_sizes') else None, label=lab(c))


def see_linecoll(c):
    return dict(color=rc(c.get_color()),
                lw=[float(v) for v in np.atleast_1d(c.get_linewidth())],
                seg=[s.tolist() for s in c.get_segments()])


def see_patch(p):
    return dict(fc=rc(p.get_facecolor()), ec=rc(p.get_edgecolor()),
                lw=float(p.get_linewidth()), ls=ls_of(p),
                fill=bool(p.get_fill()),
                path=p.get_path().vertices.tolist(), label=lab(p))


def see_text(t):
    return dict(color=rc(t.get_color()), s=float(t.get_fontsize()),
                text=t.get_text(), pos=t.get_position(),
                va=t.get_va(), ha=t.get_ha(),
                disp=t.get_transform().transform(t.get_position())
                .round(6).tolist())


def see(kind, o):
    if kind == 'plot':
        return [see_line(l) for l in o]
    if kind in ('scatter', 'fill_between'):
        return see_coll(o)
    if kind == 'errorbar':
        d, caps, bars = o.lines
        return dict(line=see_line(d), caps=[see_line(c) for c in caps],
                    bars=[see_linecoll(b) for b in bars],
                    label=lab(o))
    if kind == 'stairs':
        return see_patch(o)
    if kind == 'hist':
        return dict(n=np.asarray(o[0]).tolist(),
                    edges=np.asarray(o[1]).tolist(),
                    p=[see_patch(p) for p in o[2]])
    if kind == 'text':
        return see_text(o)


KINDS = ['plot', 'scatter', 'errorbar', 'fill_between', 'stairs', 'hist',
         'text']
ARGS = {'plot': (X, Y), 'scatter': (X, Y), 'errorbar': (X, Y, [.1, .2, .3]),
        'fill_between': (X, Y, Y2), 'stairs': (Y, [0., 1., 2., 4.]),
        'hist': ([0., .5, 1., 1., 3.], [0., 1., 2., 3.]),
        'text': ('ab', (.25, .75))}


def ref(raw, kind, st, over=None):
    """The artist matplotlib draws when told every detail explicitly."""
    o = dict(over or {})
    l, m, e, f, t = st.line, st.marker, st.errorbar, st.fill, st.text
    mec, mfc = rgba(m['ec'], m['ea']), rgba(m['fc'], m['fa'])
    if kind in ('plot', 'errorbar'):
        kw = dict(color=rgba(l['c'], l['a']), linewidth=l['lw'],
                  linestyle=l['ls'], marker=m['style'],
                  markersize=m['s'], markeredgewidth=m['elw'],
                  markeredgecolor=mec, markerfacecolor=mfc)
        if kind == 'errorbar':
            kw |= dict(ecolor=rgba(e['c'], e['a']), elinewidth=e['lw'],
                       capsize=e['capsize'], capthick=e['capthick'])
        al = dict(c='color', lw='linewidth', ls='linestyle', ms='markersize',
                  mew='markeredgewidth', mec='markeredgecolor',
                  mfc='markerfacecolor')
    elif kind == 'scatter':
        kw = dict(s=m['s'], linewidths=m['elw'], marker=m['style'],
                  edgecolors=mec, facecolors=mfc)
        al = {}
    elif kind == 'text':
        kw = dict(color=rgba(t['c'], t['a']), fontsize=t['s'], va='center',
                  ha='left', transform=raw.transAxes)
        al = {}
    else:
        kw = dict(edgecolor=rgba(f['ec'], f['ea']),
                  facecolor=rgba(f['fc'], f['fa']), linewidth=f['lw'],
                  linestyle=f['ls'])
        al = dict(ec='edgecolor', fc='facecolor', lw='linewidth',
                  ls='linestyle')
        if kind == 'stairs':
            kw |= dict(fill=True)
        if kind == 'hist':
            kw |= dict(histtype='stepfilled')
    for k, v in o.items():
        kw[al.get(k, k)] = v
    a = ARGS[kind]
    if kind == 'errorbar':
        return raw.errorbar(a[0], a[1], yerr=kw.pop('yerr', a[2]), **kw)
    if kind == 'hist':
        return raw.hist(a[0], bins=kw.pop('bins', a[1]), **kw)
    if kind == 'text':
        s = f'${a[0]}$' if t['use_tex'] else a[0]
        return raw.text(*a[1], s, **kw)
    return getattr(raw, kind)(*a, **kw)


def draw(ax, kind, over=None):
    a = ARGS[kind]
    o = dict(over or {})
    if kind == 'errorbar':
        r = ax.errorbar(a[0], a[1], yerr=o.pop('yerr', a[2]), **o)
    elif kind == 'hist':
        r = ax.hist(a[0], bins=o.pop('bins', a[1]), **o)
    else:
        r = getattr(ax, kind)(*a, **o)
    need(r is ax, '%s does not return the axes', kind)
    return ax.last_draw._raw


def match(kind, got, exp, what):
    g, e = see(kind, got), see(kind, exp)
    if g != e:
        d = diff(g, e)
        need(False, '%s: %s drawn with %s', what, kind, d)


def diff(g, e, path=''):
    if isinstance(g, dict) and isinstance(e, dict):
        return '; '.join(filter(None, (diff(g[k], e[k], f'{path}.{k}')
                                       for k in g)))
    if isinstance(g, list) and isinstance(e, list) and len(g) == len(e):
        return '; '.join(filter(None, (diff(a, b, f'{path}[{i}]')
                                       for i, (a, b) in enumerate(
                                           zip(g, e)))))
    return '' if g == e else f'{path}: {g} instead of {e}'


# ------------------------------------------------------------------ histories

OPS = [
    ('c', 'r', None), ('c', 'b', .4), ('c', None, .6), ('c', (0., .5, 1.), 0.),
    ('line', 'lw', 1.), ('line', 'ls', '--'), ('line', 'c', 'g'),
    ('line', 'a', .25),
    ('marker', 's', 's', 5), ('marker', 'o', 'elw', 0.5),
    ('marker', '^', 'fc', 'y'), ('marker', None, 'ea', .5),
    ('markerc', 'o', 'm', None), ('markerc', 'o', None, .1),
    ('markerc', 's', 'c', 1.),
    ('fill', 'lw', 3.), ('fill', 'ls', ':'), ('fill', 'fc', 'orange'),
    ('fillc', 'g', None), ('fillc', None, .9),
    ('errorbar', 'capsize', 7), ('errorbar', 'c', 'r'),
    ('errorbar', 'lw', 4.), ('errorbar', 'capthick', 2.),
    ('text', 'use_tex', False), ('text', 's', 9), ('text', 'c', 'r'),
    ('text', 'a', .3),
    ('many',), ('bad',),
]


class Fmts(System):
    @staticmethod
    def inits():
        return ['fresh']

    def __init__(self, init):
        raw = raws()
        if getattr(raw[0], 'mc_n', 0) % 40 == 0:
            for r in raw:
                wipe(r)
        raw[0].mc_n = getattr(raw[0], 'mc_n', 0) + 1
        self.ax = [Axes(r) for r in raw]
        self.arr = AxesArray(self.ax)
        self.st = [St(), St()]
        self.last = None

    def canon(self):
        return tuple(s.canon() for s in self.st)

    def ops(self):
        return [(w,) + o for o in OPS for w in (0, 2)]

    def apply(self, op):
        w, op = op[0], tuple(tuple(x) if isinstance(x, list) else x
                             for x in op[1:])
        tgt = self.arr if w == 2 else self.ax[w]
        sts = self.st if w == 2 else [self.st[w]]
        r = tgt
        k = op[0]
        if k == 'c':
            r = tgt.c(op[1], op[2]) if op[2] is not None else tgt.c(op[1])
            for s in sts:
                s.color(op[1], op[2])
        elif k in ('line', 'fill', 'errorbar', 'text'):
            r = getattr(tgt, 'fmt_' + k)(**{op[1]: op[2]})
            for s in sts:
                d = getattr(s, k)
                if k == 'fill' and op[1] in 'ca':
                    St.color2(d, *((op[2], None) if op[1] == 'c' else
                                   (None, op[2])))
                else:
                    d[op[1]] = op[2]
        elif k == 'marker':
            r = tgt.fmt_marker(style=op[1], **{op[2]: op[3]})
            for s in sts:
                s.marker['style'] = op[1]
                s.marker[op[2]] = op[3]
        elif k == 'markerc':
            r = tgt.fmt_marker(style=op[1], c=op[2], a=op[3])
            for s in sts:
                s.marker['style'] = op[1]
                St.color2(s.marker, op[2], op[3])
        elif k == 'fillc':
            r = tgt.fmt_fill(c=op[1], a=op[2])
            for s in sts:
                St.color2(s.fill, op[1], op[2])
        elif k == 'many':
            r = tgt.fmt(marker=dict(style='d', s=3, fc='r', fa=1.),
                        fill=dict(a=.5, ec='b'), line=dict(lw=9.),
                        errorbar=dict(capsize=1.), text=dict(s=20),
                        frame=dict(label={'x': 'xx'}))
            for s in sts:
                s.marker |= dict(style='d', s=3, fc='r', fa=1.)
                St.color2(s.fill, None, .5)
                s.fill['ec'] = 'b'
                s.line['lw'] = 9.
                s.errorbar['capsize'] = 1.
                s.text['s'] = 20
        elif k == 'bad':
            for f in ('line', 'fill', 'errorbar', 'text', 'frame', 'marker'):
                o = outcome(getattr(tgt, 'fmt_' + f), **(
                    {'nonsense': 1} if f != 'marker' else
                    {'nonsense': 1, 'style': sts[0].marker['style']}))
                need(o[0] == 'err' and isinstance(o[1], KeyError),
                     'unknown %s format accepted: %r', f, o[1])
                if f == 'marker' and w == 2:
                    pass
            r = tgt
        need(r is tgt, '%s does not return the axes', k)
        if self.replaying:
            return
        for i, (ax, st) in enumerate(zip(self.ax, self.st)):
            raw = ax._raw
            for kind in KINDS:
                match(kind, draw(ax, kind), ref(raw, kind, st),
                      f'axes {i} after {op}')


# ------------------------------------------------------------ single call overrides

OVER = {
    'plot': dict(c='m', lw=7., ls=':', marker='x', ms=2., mew=3., mec='r',
                 mfc='g', label='L'),
    'scatter': dict(s=3., linewidths=2., marker='v', edgecolors='r',
                    facecolors='b', label='L', alpha=.5),
    'errorbar': dict(c='m', lw=7., ls=':', marker='x', ms=2., mew=3.,
                     mec='r', mfc='g', ecolor='y', elinewidth=5., capsize=9,
                     capthick=3., label='L', xerr=.5,
                     yerr=[[.1, .2, .3], [.4, .5, .6]], lolims=True,
                     uplims=True, xlolims=[True, False, True]),
    'fill_between': dict(ec='r', fc='b', lw=5., ls='--', label='L',
                         where=[True, True, False], step='mid'),
    'stairs': dict(ec='r', fc='b', lw=5., ls='--', label='L', fill=False,
                   baseline=1., orientation='horizontal'),
    'hist': dict(ec='r', fc='b', lw=5., ls='--', label='L', density=True,
                 weights=[1., 2., 3., 4., 5.], histtype='step', bins=2,
                 range=(0., 2.), orientation='horizontal', log=True,
                 rwidth=None, align='left'),
    'text': dict(color='r', fontsize=4, va='top', ha='right'),
}
PRE = [(), [('c', 'r', .5)], [('line', 'lw', 1.), ('marker', 's', 's', 5),
                              ('fill', 'ls', '--'), ('text', 's', 9)]]


def over_body(ch):
    pre = ch.pick(PRE, 'format')
    s = Fmts('fresh')
    ax, st = s.ax[0], s.st[0]
    kind = ch.pick(KINDS, 'artist')
    keys = sorted(OVER[kind])
    k1 = ch.pick(keys, 'keyword')
    k2 = ch.pick([None] + [k for k in keys if k > k1], 'and')
    if pre:
        for op in pre:
            st0 = (0,) + op
            _quiet_apply(s, st0)
    over = {k: OVER[kind][k] for k in (k1, k2) if k}
    fresh = {k: (list(v) if isinstance(v, list) else v)
             for k, v in over.items()}
    raw = ax._raw
    match(kind, draw(ax, kind, over), ref(raw, kind, st, over),
          f'{kind}({over})')
    need(over == fresh, 'keywords changed')
    # the next call is drawn with the formats again
    match(kind, draw(ax, kind), ref(raw, kind, st), f'{kind} after override')
    if raw.get_xscale() != 'linear' or raw.get_yscale() != 'linear':
        wipe(raw)
    return kind, k1, str(k2), len(pre)


def _quiet_apply(s, op):
    """Apply without the drawing that Fmts.apply does."""
    w, op = op[0], op[1:]
    ax, st = s.ax[w], s.st[w]
    if op[0] == 'c':
        ax.c(op[1], op[2])
        st.color(op[1], op[2])
    elif op[0] == 'marker':
        ax.fmt_marker(style=op[1], **{op[2]: op[3]})
        st.marker['style'] = op[1]
        st.marker[op[2]] = op[3]
    else:
        getattr(ax, 'fmt_' + op[0])(**{op[1]: op[2]})
        getattr(st, op[0])[op[1]] = op[2]


# ------------------------------------------------------------------ error bands

XX = X


def band_body(ch):
    s = Fmts('fresh')
    ax, st = s.ax[0], s.st[0]
    pre = ch.pick(PRE, 'format')
    for op in pre or ():
        _quiet_apply(s, (0,) + op)
    y = ch.pick([Y, Y.tolist(), np.array([1, 3, 2])], 'y')
    m = ch.pick([3, 2, 1], 'points')
    if m < 3 and (y is not Y or pre):
        return None
    X, y = XX[:m], y[:m]
    e = ch.pick([None, 0, .5, 2, [.1, .2, .3][:m], np.array([1, 2, 3])[:m],
                 np.array([[.1, .2, .3], [1., 2., 3.]])[:, :m],
                 [[.1, .2, .3][:m], [1., 2., 3.][:m]]], 'yerr')
    lb = ch.pick([None, 'L'], 'label')
    fl = ch.pick([None, 'F'], 'fill label')
    kw = ch.pick([{}, dict(lw=4.)], 'plot kw')
    fkw = ch.pick([None, dict(fc='y'), dict(label='G')], 'fill kw')
    a = {} if fkw is None else dict(fill_between_kw=fkw)
    r = ax.errorfill(X, y, yerr=e, label=lb, fill_label=fl, **a, **kw)
    need(r is ax, 'errorfill does not return the axes')
    line, band = ax._raw.lines[-1], ax._raw.collections[-1]
    g = see_line(line)
    raw = ax._raw
    ee = 0. if e is None else np.asarray(e, float)
    lo, hi = ee if np.ndim(ee) == 2 else (ee, ee)
    yy = np.asarray(y, float)
    # independent artists
    l2, = raw.plot(X, yy, color=rgba(st.line['c'], st.line['a']),
                   linewidth=kw.get('lw', st.line['lw']),
                   linestyle=st.line['ls'], marker=st.marker['style'],
                   markersize=st.marker['s'],
                   markeredgewidth=st.marker['elw'],
                   markeredgecolor=rgba(st.marker['ec'], st.marker['ea']),
                   markerfacecolor=rgba(st.marker['fc'], st.marker['fa']),
                   label=lb)
    d = diff(g, see_line(l2))
    need(not d, 'line of errorfill: %s', d)
    f = st.fill
    b2 = raw.fill_between(
        X, yy - lo, yy + hi, edgecolor=rgba(f['ec'], f['ea']),
        facecolor=(fkw or {}).get('fc', rgba(f['fc'], f['fa'])),
        linewidth=f['lw'], linestyle=f['ls'],
        label=(fkw or {}).get('label', fl))
    d = diff(see_coll(band), see_coll(b2))
    need(not d, 'band of errorfill: %s', d)
    need(ax.last_draw._raw is band, 'last draw')
    return str(pre), m, str(y), str(e), lb, fl, str(kw), str(fkw)


# ------------------------------------------------------------------ legends

LOCS = {'r': 'right', 'lr': 'lower right', 'll': 'lower left',
        'cl': 'center left', 'cr': 'center right', 'ur': 'upper right',
        'ul': 'upper left', 'uc': 'upper center', 'c': 'center'}
FULL = ['best', 'right', 'lower right', 'lower left', 'center left',
        'center right', 'upper right', 'upper left', 'upper center',
        'lower center', 'center']


def leg_body(ch):
    loc = ch.pick([None] + sorted(LOCS) + FULL + [(.25, .5)], 'loc')
    arr = ch.flag('array')
    opt = ch.pick([{}, dict(ncol=2), dict(title='T', title_fontsize=7),
                   dict(fontsize=5), dict(frameon=True, framealpha=.3),
                   dict(markerscale=2.), dict(labelcolor='linecolor'),
                   dict(numpoints=1), dict(handlelength=5.,
                                           handletextpad=1.),
                   dict(borderpad=1., borderaxespad=2., labelspacing=3.,
                        columnspacing=4., handleheight=2.)], 'options')
    f = MplFigure()
    raw, raw2 = f.subplots(1, 2)
    axs = AxesArray([raw, raw2])
    for a in axs:
        a.plot(X, Y, label='one').c('r').plot(X, Y2, label='two').plot(Y, X)
    kw = dict(opt)
    if loc is not None:
        kw['loc'] = loc
    r = (axs if arr else axs[0]).leg(**kw)
    need(r is (axs if arr else axs[0]) or arr, 'leg does not return the axes')
    exp = dict(opt)
    exp['loc'] = 'best' if loc is None else LOCS.get(loc, loc)
    for a in axs if arr else [axs[0]]:
        lt = a._raw.get_legend()
        need(a.last_draw._raw is lt, 'last draw')
        got = see_leg(lt)
        e = see_leg(a._raw.legend(**exp))
        d = diff(got, e)
        need(not d, 'legend at %r: %s', loc, d)
    if not arr:
        need(raw2.get_legend() is None, 'legend on the other axes')
    return str(loc), str(opt), arr


def see_leg(l):
    return dict(
        loc=str(l._loc), n=[t.get_text() for t in l.get_texts()],
        fs=[float(t.get_fontsize()) for t in l.get_texts()],
        col=[rc(t.get_color()) for t in l.get_texts()],
        title=l.get_title().get_text(),
        tfs=float(l.get_title().get_fontsize()), ncol=l._ncols,
        frame=bool(l.get_frame_on()), fa=l.get_frame().get_alpha(),
        ms=float(l.markerscale), np=l.numpoints, hl=float(l.handlelength),
        htp=float(l.handletextpad), bp=float(l.borderpad),
        bap=float(l.borderaxespad), lsp=float(l.labelspacing),
        csp=float(l.columnspacing), hh=float(l.handleheight))


def scenarios(tier):
    d = 2 if tier == 'quick' else 3
    return [Bfs('formats', Fmts, d), Tree('override', over_body),
            Tree('band', band_body), Tree('legend', leg_body)]
