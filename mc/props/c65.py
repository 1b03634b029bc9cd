"""Secondary axes and areas between curves."""
import matplotlib as mpl
import numpy as np
from matplotlib import colors as mc
from matplotlib.figure import Figure as MplFigure

from pyhipp import plot
from pyhipp.astro.plot.shortcuts import Axes as AAxes

from ..engine import Tree
from ..util import need, outcome, eq, close, Frozen

LEVEL = 'exploration'
RULE = ('every kind of secondary axis with every limit, scale, place and '
        'option of the alphabets; distinct = distinct (configuration, '
        'resulting axis) pairs')
ASSUMPTIONS = ['a tick is drawn where the transform of its axis puts it']
BOUNDS = {'quick': '6 kinds of secondary axes x 4 places x 4 limits x ticks, '
                   'labels and hiding on or off, 9 probe values each; bands '
                   'between 5 x 5 curves',
          'thorough': 'the same'}

mpl.rcParams['xtick.minor.visible'] = False      # faster drawing
mpl.rcParams['ytick.minor.visible'] = False
LIMS = [(0., 1.), (.3, 1.2), (1., .1), (.5, 1.5)]
XS = {'up': ([0., .5, 1., 3.], [10., 12., 20., 80.]),
      'down': ([0., .5, 1., 3.], [80., 20., 12., 10.]),
      'unsorted': ([1., 0., 3., .5], [20., 10., 80., 12.])}


def lin_interp(x, y, v):
    """Piecewise linear, continued by the outermost pieces."""
    o = np.argsort(x)
    x, y = np.asarray(x)[o], np.asarray(y)[o]
    i = int(np.clip(np.searchsorted(x, v, side='right') - 1, 0, len(x) - 2))
    return y[i] + (y[i + 1] - y[i]) * (v - x[i]) / (x[i + 1] - x[i])


def kinds():
    k = {
        'double': (lambda x: 2 * np.asarray(x) + 1,
                   lambda y: (np.asarray(y) - 1) / 2),
        'inverse': (lambda x: 1. / (np.asarray(x) + 1.),
                    lambda y: 1. / np.asarray(y) - 1.),
    }
    return k


def sec_body(ch):
    kind = ch.pick(['double', 'inverse', 'identical', 'lgzp1', 'interp',
                    'plain'], 'kind')
    loc = ch.pick(['top', 'bottom', 'left', 'right', 'default', 'center'],
                  'location')
    lim = ch.pick(LIMS, 'limits')
    hide = ch.pick([None, True, False], 'hide first')
    tk = ch.pick([None, 'given'], 'ticks')
    lb = ch.pick([None, 'L'], 'label')
    f = MplFigure()
    ax = plot.Axes(f.add_subplot())
    other = plot.Axes(f.add_axes([.9, .9, .05, .05]))
    axis = 'y' if loc in ('left', 'right') else 'x'
    ax.lim(**{axis: lim})
    before = ticks_on(ax._raw), ticks_on(other._raw)
    a = AAxes(ax)
    kw = {}
    if loc != 'default':
        kw['location'] = loc
    if hide is not None:
        kw['hide_first_ticks'] = hide
    if lb is not None:
        kw['label'] = lb
    var = None
    if kind in ('double', 'inverse'):
        fw, bw = kinds()[kind]
        ticks = np.sort(fw(np.array(lim))).mean() * np.array([.9, 1., 1.1])
        call = lambda: a.add_secondary_axis(fw, bw, **kw)
    elif kind == 'identical':
        fw = bw = lambda x: np.asarray(x)
        ticks = [.4, .6, .8]
        call = lambda: a.add_secondary_identical_axis(**kw)
    elif kind == 'lgzp1':
        fw = lambda x: 10. ** np.asarray(x) - 1
        bw = lambda z: np.log10(1 + np.asarray(z))
        ticks = [1., 2., 3.]
        call = lambda: a.add_secondary_axis_lgzp1_to_z(**kw)
    elif kind == 'interp':
        var = ch.pick(sorted(XS), 'table')
        x, y = (np.array(v) for v in XS[var])
        fz = Frozen(x=x, y=y)
        fw = lambda v: np.array([lin_interp(x, y, t) for t in np.ravel(v)])
        bw = lambda v: np.array([lin_interp(y, x, t) for t in np.ravel(v)])
        ticks = [11., 13., 19.]
        call = lambda: a.add_secondary_axis_interp(x, y, **kw)
    else:
        fw, bw = kinds()['double']
        ticks = [1.5, 2., 2.5]
        if loc == 'default':
            return None
        pl = 'top' if loc == 'center' else loc
        pos = ch.pick([pl, 0.4], 'position')
        fn = ax.secondary_yaxis if axis == 'y' else ax.secondary_xaxis
        s = fn(pos, functions=(fw, bw))
        need(type(s) is plot.Axes, 'type %s', type(s).__name__)
        probe(ax._raw, s._raw, axis, fw, lim)
        if isinstance(pos, float):
            need(s._raw._pos == pos, 'position %r', s._raw._pos)
        need(ticks_on(ax._raw) == before[0], 'ticks of the axes changed')
        s2 = fn(pos)
        probe(ax._raw, s2._raw, axis, lambda v: np.asarray(v), lim)
        return kind, loc, lim, str(pos)
    if tk:
        kw['ticks'] = ticks = list(np.asarray(ticks, float))
    if loc == 'center':
        o = outcome(call)
        need(o[0] == 'err' and isinstance(o[1], ValueError),
             'unknown location accepted: %r', o[1])
        return kind, loc
    s = call()
    need(type(s) is plot.Axes, 'type %s', type(s).__name__)
    r = s._raw
    place = 'top' if loc == 'default' else loc
    need(r._orientation == axis and r._loc_str()
         if hasattr(r, '_loc_str') else True, 'orientation')
    need(r._parent is ax._raw, 'attached to other axes')
    need(r._orientation == axis, 'orientation %s', r._orientation)
    need(r._pos == {'top': 1., 'right': 1., 'bottom': 0., 'left': 0.}[place],
         'placed at %r', r._pos)
    probe(ax._raw, r, axis, fw, lim)
    if var:
        fz.check('interpolated axis')
    # label and ticks
    m = getattr(r, f'get_{axis}label')()
    exp = lb if lb is not None else ('$z$' if kind == 'lgzp1' else '')
    need(m.replace('$', '') == exp.replace('$', ''), 'label %r, expected %r',
         m, exp)
    got = np.asarray(getattr(r, f'get_{axis}ticks')()).tolist()
    if tk:
        close(got, ticks, 'ticks')
    elif kind == 'lgzp1':
        close(got, [0, 1, 2, 3, 4, 5, 7, 10, 14], 'default ticks')
    # the ticks of the first axis at that side
    after = ticks_on(ax._raw)
    need(after == hidden(before[0], axis, place,
                         hide is None or hide), 'ticks of the first axes: '
         '%s, were %s', after, before[0])
    need(ticks_on(other._raw) == before[1], 'other axes changed')
    return kind, loc, lim, hide, tk, lb, var


def ticks_on(raw):
    out = {}
    for a in 'xy':
        for w in ('major', 'minor'):
            p = getattr(raw, a + 'axis').get_tick_params(which=w)
            for k in (('top', 'bottom') if a == 'x' else ('left', 'right')):
                out[a, w, k] = p.get(k)
    return out


def hidden(b, axis, place, hide):
    b = dict(b)
    if hide:
        for w in ('major', 'minor'):
            b[axis, w, place] = False
    return b


def probe(raw, sec, axis, fw, lim):
    """A value of the first axis and its converted value are at one place."""
    raw.figure.draw_without_rendering()
    for t in np.linspace(.05, .95, 9):
        v = lim[0] + t * (lim[1] - lim[0])
        w = float(np.ravel(fw([v]))[0])
        if axis == 'x':
            p = raw.transData.transform((v, 0.5))[0]
            q = sec.transData.transform((w, .5))[0]
        else:
            p = raw.transData.transform((.5, v))[1]
            q = sec.transData.transform((.5, w))[1]
        need(abs(p - q) < 1e-3, 'value %r of the first axis is at %r, its '
             'conversion %r at %r', v, p, w, q)
    l = getattr(sec, f'get_{axis}lim')()
    close(sorted(l), sorted(np.ravel(fw(np.array(lim)))),
          'limits of the secondary axis',
          rtol=1e-6)


def given_body(ch):
    """Empty or array-valued options are used as given; what is hidden are
    the tick marks of one side and nothing else; user options of the
    interpolation hold in both directions; several axes side by side."""
    loc = ch.pick(['top', 'bottom', 'left', 'right'], 'location')
    kind = ch.pick(['identical', 'lgzp1', 'interp', 'wide'], 'kind')
    hide = ch.flag('hide first')
    tk = ch.pick([None, (), (.25, .5), 'arr', 'int'], 'ticks')
    lb = ch.pick([None, '', 'L', '$x_1$'], 'label')
    axis = 'y' if loc in ('left', 'right') else 'x'
    raw = MplFigure().add_subplot()
    ax = plot.Axes(raw)
    lim = {'identical': (-1., 2.), 'lgzp1': (-.5, 1.), 'interp': (-.5, 3.5),
           'wide': (-2., 6.)}[kind]
    ax.lim(**{axis: lim})
    raw.tick_params(axis='both', which='both', top=True, bottom=True,
                    left=True, right=True, labeltop=True, labelright=True)
    b, lbl = ticks_on(raw), labels_on(raw)
    lims = raw.get_xlim(), raw.get_ylim()
    kw = {'location': loc, 'hide_first_ticks': hide}
    if tk is not None:
        kw['ticks'] = given = {
            'arr': np.array([.5, .75]), 'int': [1, 2]}.get(tk, tk)
    if lb is not None:
        kw['label'] = lb
    A = AAxes(ax)
    if kind == 'identical':
        fw = lambda v: np.asarray(v)
        call = A.add_secondary_identical_axis
        s = call(**kw)
    elif kind == 'lgzp1':
        fw = lambda v: 10. ** np.asarray(v) - 1
        call = A.add_secondary_axis_lgzp1_to_z
        s = call(**kw)
    elif kind == 'interp':
        x, y = np.array([0., 1., 3.]), np.array([10., 12., 80.])
        fw = lambda v: np.array([lin_interp(x, y, t) for t in np.ravel(v)])
        s = A.add_secondary_axis_interp(x, y, **kw)
    else:                       # several degrees: a parabola, inverted
        x = np.linspace(-3., 7., 41)
        y = np.exp(x / 2)
        ik = {'kind': 'linear', 'fill_value': (-5., 500.),
              'bounds_error': False}
        iz = dict(ik)
        fw = lambda v: np.interp(np.ravel(v), x, y)
        s = A.add_secondary_axis_interp(x, y, interp_kw=ik, **kw)
        need(ik == iz, 'options of the caller changed: %r', ik)
        g, h = s._raw._functions
        close([float(g(-9.)), float(g(9.))], [-5., 500.],
              'the fill value given, forward')
        close([float(h(-9.)), float(h(900.))], [-5., 500.],
              'the fill value given, backward')
    r = s._raw
    probe(raw, r, axis, fw, lim)
    got = np.asarray(getattr(r, f'get_{axis}ticks')()).tolist()
    if tk is not None:
        close(got, [float(t) for t in given], 'ticks')
    elif kind == 'lgzp1':
        close(got, [0, 1, 2, 3, 4, 5, 7, 10, 14], 'default ticks')
    else:
        need(len(got) > 0, 'no ticks')
    m = getattr(r, f'get_{axis}label')()
    exp = lb if lb is not None else ('z' if kind == 'lgzp1' else '')
    need(m.replace('$', '') == exp.replace('$', ''), 'label %r, expected %r',
         m, exp)
    need(ticks_on(raw) == hidden(b, axis, loc, hide),
         'tick marks of the first axes: %s, were %s', ticks_on(raw), b)
    need(labels_on(raw) == lbl, 'tick labels of the first axes: %s, were %s',
         labels_on(raw), lbl)
    need((raw.get_xlim(), raw.get_ylim()) == lims, 'limits changed')
    need(raw.get_xlabel() == '' and raw.get_ylabel() == '',
         'the first axes are labelled')
    # a second one at the opposite side, then the limits change
    opp = {'top': 'bottom', 'bottom': 'top', 'left': 'right',
           'right': 'left'}[loc]
    t = A.add_secondary_axis(lambda v: 2 * np.asarray(v),
                             lambda v: np.asarray(v) / 2, location=opp,
                             ticks=[.5], hide_first_ticks=False)
    lim = (lim[0] + .25, lim[1] - .25)
    ax.lim(**{axis: lim})
    probe(raw, t._raw, axis, lambda v: 2 * np.asarray(v), lim)
    probe(raw, r, axis, fw, lim)
    need(ticks_on(raw) == hidden(b, axis, loc, hide), 'second axis hides')
    need(np.asarray(getattr(r, f'get_{axis}ticks')()).tolist() == got
         or tk is None, 'ticks of the first secondary axis changed')
    return kind, loc, hide, str(tk), lb


def labels_on(raw):
    out = {}
    for a in 'xy':
        for w in ('major', 'minor'):
            p = getattr(raw, a + 'axis').get_tick_params(which=w)
            for k in p:
                if k.startswith('label') or k in ('pad', 'direction'):
                    out[a, w, k] = p[k]
    return out


CURVES = [([0., 1.], [0., 1.]), ([0., 1., 2.], [1., 3., 2.]),
          ([2., 0.], [5., 4.]), ([1.], [7.]), ([0., 0., 1.], [1., 2., 2.]),
          ([1e9 + .25, 1e9 + .5], [-1e-9, 2e12 + .5]), ([], [])]


def fill_body(ch):
    c1 = ch.pick(CURVES, 'curve 1')
    c2 = ch.pick(CURVES, 'curve 2')
    lists = ch.flag('lists')
    c = ch.pick([None, 'r', (.1, .2, .3)], 'colour')
    a = ch.pick([None, .25], 'alpha')
    pk = ch.pick([None, dict(hatch='/'), dict(zorder=9, label='L')], 'patch')
    cv = (lambda v: list(v)) if lists else np.array
    x1, y1, x2, y2 = cv(c1[0]), cv(c1[1]), cv(c2[0]), cv(c2[1])
    fz = Frozen(**({} if lists else dict(x1=x1, y1=y1, x2=x2, y2=y2)))
    raw = MplFigure().add_subplot() if not _R else _R[0]
    _R[:] = [raw]
    if len(raw.patches) > 50:
        raw.clear()
    A = AAxes(plot.Axes(raw))
    n = len(raw.patches)
    kw = {}
    if c is not None:
        kw['c'] = c
    if a is not None:
        kw['a'] = a
    if pk is not None:
        kw['patch_kw'] = dict(pk)
    r = A.fill_between_xy(x1, y1, x2, y2, **kw)
    need(r is A, 'fill_between_xy does not return the axes')
    need(len(raw.patches) == n + 1, 'one area')
    p = raw.patches[-1]
    v = p.get_xy()
    exp = list(zip(*c1)) + list(zip(*c2))[::-1]
    v = v.tolist()
    while len(v) > 1 and v[-1] == v[0]:     # the outline is closed
        v.pop()
    while len(exp) > 1 and tuple(exp[-1]) == tuple(exp[0]):
        exp.pop()
    close(v, exp, 'outline of the area')
    need(p.get_closed(), 'open outline')
    col = mc.to_rgba('k' if c is None else c)[:3] + (1. if a is None else a,)
    close(p.get_facecolor(), col, 'colour')
    close(p.get_edgecolor(), col, 'edge colour')
    if pk and 'hatch' in pk:
        need(p.get_hatch() == '/', 'hatch')
    if pk and 'zorder' in pk:
        need(p.get_zorder() == 9 and p.get_label() == 'L', 'options')
    fz.check('fill_between_xy')
    if not lists and c is None and a is None:
        # without options afterwards: nothing is remembered
        A.fill_between_xy(x1, y1, x2, y2)
        need(raw.patches[-1].get_hatch() is None and
             raw.patches[-1].get_label() != 'L', 'options remembered')
    return str(c1), str(c2), lists, str(c), a, str(pk)


_R = []


def scenarios(tier):
    return [Tree('secondary', sec_body), Tree('given', given_body),
            Tree('area', fill_body)]
