"""Frames of axes: limits, labels, scales, ticks."""
import numpy as np
import matplotlib as mpl
from matplotlib import colors as mc
from matplotlib.figure import Figure as MplFigure

from pyhipp import plot
from pyhipp.plot.axes import Axes, AxesArray
from pyhipp.plot.figure import Figure

from ..engine import Bfs, System
from ..util import need, outcome

LEVEL = 'model_checking'
ASSUMPTIONS = ['limits and ticks are compared once they were asked for',
               'limits are positive, so that every scale can show them']
BOUNDS = {'quick': 'all histories of up to 2 frame settings on two axes, '
                   'independent or sharing the x axis, addressed one by one '
                   'or together; histories of up to 3 settings from a '
                   'reduced alphabet',
          'thorough': 'histories of up to 3 settings, 4 from the reduced '
                      'alphabet'}
XY = 'xy'
U = None


class Ax:
    def __init__(self):
        self.lim = {a: U for a in XY}
        self.label = {a: '' for a in XY}
        self.scale = {a: 'linear' for a in XY}
        self.ticks = {a: U for a in XY}
        self.tl = {a: U for a in XY}
        self.minor = {a: U for a in XY}
        self.tp = {a: {} for a in XY}
        self.grid = {a: None for a in XY}
        self.on = True
        self.outer = False
        self.tex = True

    def canon(self):
        return str(sorted((k, str(v)) for k, v in vars(self).items()))


FULL = [
    ('lim', (1., 10.), None), ('lim', None, (2., 50.)),
    ('lim', (3., 20.), (20., 3.)), ('lim0', [(2., 8.), (1., 4.)]),
    ('label', 'a', None), ('label', None, 'b'), ('label', 'c', 'd'),
    ('label0', {'x': 'raw', 'fontsize': 7}), ('label0', ['p', None]),
    ('scale', 'log', None), ('scale', None, 'log'),
    ('scale', 'linear', 'linear'), ('scale0', {'x': 'log', 'base': 2}),
    ('scale0', [None, 'log']), ('tll', [4., 5.], ['m', 'n']),
    ('ticks', {'x': [4., 5.]}), ('ticks', {'y': [3., 4.]}),
    ('ticks', {'x': [2., 40.], 'y': [2., 30.]}), ('ticks', [[4., 6.], None]),
    ('tl', [4., 5.], ['u', 'v']), ('ty', [3., 4.], ['w', 'z']),
    ('tp', {'x': {'labelsize': 5, 'top': False}}),
    ('tp', {'both': {'direction': 'out'}, 'which': 'both'}),
    ('tp', {'y': {'length': 3, 'right': False}, 'which': 'minor'}),
    ('limticks', (1., 10.), [0.5, 5., 90.]),
    ('minor', {'y': [3.25, 4.75]}), ('minor', {'x': [1.25, 5.75]}),
    ('outer',), ('grid', False, 'both', {}), ('grid', True, 'x', {'lw': 2.}),
    ('grid', True, 'y', {'ls': '--', 'c': 'r'}),
    ('off',), ('on',), ('tex', False), ('draw',), ('bad',),
]
CORE = [
    ('lim', (1., 10.), None), ('lim', (3., 20.), (20., 3.)),
    ('label', 'a', 'b'), ('scale', 'log', None), ('scale', 'linear', 'log'),
    ('ticks', {'x': [4., 5.]}), ('ticks', {'x': [2., 40.], 'y': [2., 30.]}),
    ('ticks', {'y': [3., 4.]}), ('outer',), ('tp', {'x': {'labelsize': 5}}),
]


class Frames(System):
    OPS = FULL
    WHO = 0, 1, 2

    @staticmethod
    def inits():
        return [False, True]

    def __init__(self, init):
        self.share = init
        self.arr = Figure(MplFigure()).subplots(
            (2, 1), share=('all' if init else 'none', 'none'))
        self.ax = [self.arr[0], self.arr[1]]
        self.r = [Ax(), Ax()]
        self.lab_kw = [None, None]

    def canon(self):
        return self.share, self.r[0].canon(), self.r[1].canon()

    def ops(self):
        return [(w,) + o for o in self.OPS for w in self.WHO
                if w != 1 or o in CORE]

    # -- what a setting of axes i means
    def users(self, i, a):
        return (0, 1) if self.share and a == 'x' else (i,)

    def set_lim(self, i, a, v):
        for j in self.users(i, a):
            self.r[j].lim[a] = tuple(v)

    def set_ticks(self, i, a, v, minor=False):
        for j in self.users(i, a):
            r = self.r[j]
            if minor:
                r.minor[a] = list(v)
            else:
                r.ticks[a] = list(v)
                r.tl[a] = U
            lim = r.lim[a]
            if lim is not U and (min(v) < min(lim) or max(v) > max(lim)):
                r.lim[a] = U            # ticks may extend the limits

    def set_scale(self, i, a, v):
        for j in self.users(i, a):
            r = self.r[j]
            r.scale[a] = v      # limits, ticks and their labels stay

    def touched(self, i):
        r = self.r[i]
        if r.outer and i == 0:              # not in the last row
            r.label['x'] = ''

    def apply(self, op):
        w, op = op[0], op[1:]
        tgt = self.arr if w == 2 else self.ax[w]
        out = tgt
        k = op[0]
        idx = (0, 1) if w == 2 else (w,)
        pair = None
        if k in ('lim', 'label', 'scale'):
            out = getattr(tgt, k)(op[1], op[2]) if op[1] is not None else \
                getattr(tgt, k)(y=op[2])
            pair = dict(x=op[1], y=op[2])
        elif k in ('lim0', 'label0', 'scale0'):
            out = tgt.fmt_frame(**{k[:-1]: op[1]})
            pair = dict(zip(XY, op[1])) if isinstance(op[1], list) else op[1]
        elif k == 'ticks':
            out = tgt.fmt_frame(ticks=op[1])
        elif k == 'minor':
            out = tgt.fmt_frame(ticks=op[1] | {'minor': True})
        elif k in ('tl', 'ty'):
            a = 'x' if k == 'tl' else 'y'
            out = tgt.fmt_frame(ticks={a: op[1]}, ticklabels={a: op[2]})
        elif k == 'tll':
            out = tgt.fmt_frame(ticks=[op[1], None], ticklabels=[op[2], None])
        elif k == 'limticks':
            out = tgt.fmt_frame(ticks={'x': op[2]}, lim={'x': op[1]})
        elif k == 'tp':
            d = dict(op[1])
            out = tgt.tick_params(d.pop('x', None), d.pop('y', None),
                                  d.pop('both', None), **d)
        elif k == 'outer':
            out = tgt.label_outer()
        elif k == 'grid':
            out = tgt.grid(op[1], axis=op[2], **op[3])
        elif k in ('off', 'on'):
            for i in idx:
                need(getattr(self.ax[i], 'axis_' + k)() is self.ax[i],
                     'axis_%s', k)
        elif k == 'tex':
            out = tgt.fmt_text(use_tex=op[1])
        elif k == 'draw':
            for i in idx:
                self.ax[i]._raw.figure.draw_without_rendering() \
                    if not self.replaying else None
        elif k == 'bad':
            o = outcome(tgt.fmt_frame, nonsense=1)
            need(o[0] == 'err' and isinstance(o[1], KeyError),
                 'unknown frame setting accepted: %r', o[1])
        need(out is tgt, '%s does not return the axes', k)
        for i in idx:
            r = self.r[i]
            if pair is not None:
                for a in XY:
                    v = pair.get(a)
                    if v is None:
                        continue
                    if k.startswith('lim'):
                        self.set_lim(i, a, v)
                    elif k.startswith('scale'):
                        self.set_scale(i, a, v)
                    else:
                        r.label[a] = f'${v}$' if k == 'label' and r.tex else v
                if k == 'label0':
                    self.lab_kw[i] = 7 if isinstance(op[1], dict) else None
            elif k == 'ticks':
                d = dict(zip(XY, op[1])) if isinstance(op[1], list) else op[1]
                for a in XY:
                    if d.get(a) is not None:
                        # labels of other ticks: not specified what is shown
                        self.set_ticks(i, a, d[a])
            elif k == 'minor':
                for a, v in op[1].items():
                    self.set_ticks(i, a, v, True)
            elif k in ('tl', 'ty', 'tll'):
                a = 'y' if k == 'ty' else 'x'
                self.set_ticks(i, a, op[1])
                for j in self.users(i, a):
                    self.r[j].tl[a] = op[2]
            elif k == 'limticks':
                self.set_ticks(i, 'x', op[2])
                self.set_lim(i, 'x', op[1])
            elif k == 'tp':
                d = op[1]
                wh = d.get('which', 'major')
                for m in ('major', 'minor') if wh == 'both' else (wh,):
                    for a in XY:
                        for b in (a, 'both'):
                            for n, v in d.get(b, {}).items():
                                r.tp[a][m, n] = v
            elif k == 'outer':
                r.outer = True
            elif k == 'grid':
                for a in XY if op[2] == 'both' else op[2]:
                    r.grid[a] = (op[1], str(op[3]))
            elif k in ('on', 'off'):
                r.on = k == 'on'
            elif k == 'tex':
                r.tex = op[1]
            if k not in ('grid', 'on', 'off', 'tex', 'draw', 'bad'):
                self.touched(i)
        if not self.replaying:
            self.observe(k)

    def observe(self, last):
        for i, (ax, r) in enumerate(zip(self.ax, self.r)):
            m = ax._raw
            for a in XY:
                axis = getattr(m, a + 'axis')
                g = getattr(m, f'get_{a}lim')()
                if r.lim[a] is not U:
                    need(tuple(g) == r.lim[a], '%s limits of axes %d are %s, '
                         'asked for %s', a, i, g, r.lim[a])
                s = getattr(m, f'get_{a}label')()
                need(s == r.label[a], '%s label of axes %d is %r, asked for '
                     '%r', a, i, s, r.label[a])
                s = getattr(m, f'get_{a}scale')()
                need(s == r.scale[a], '%s scale of axes %d is %s, asked for '
                     '%s', a, i, s, r.scale[a])
                if r.ticks[a] is not U:
                    t = getattr(m, f'get_{a}ticks')().tolist()
                    need(t == r.ticks[a], '%s ticks of axes %d are %s, asked '
                         'for %s', a, i, t, r.ticks[a])
                if r.minor[a] is not U:
                    t = np.asarray(axis.minor.locator()).tolist()
                    need(t == r.minor[a], 'minor %s ticks of axes %d are %s, '
                         'asked for %s', a, i, t, r.minor[a])
                if r.tl[a] is not U:
                    axis.set_major_formatter(axis.get_major_formatter())
                    t = [axis.get_major_formatter()(v, n) for n, v in
                         enumerate(r.ticks[a])]
                    need(t == r.tl[a], '%s tick labels of axes %d are %s, '
                         'asked for %s', a, i, t, r.tl[a])
                for (mm, n), v in r.tp[a].items():
                    if r.outer and n == 'top':
                        continue
                    p = axis.get_tick_params(which=mm)
                    need(p.get(n) == v, '%s %s ticks of axes %d have %s=%r, '
                         'asked for %r', mm, a, i, n, p.get(n), v)
                if r.grid[a] is not None:
                    l = axis.get_major_ticks()[0].gridline
                    need(l.get_visible() == r.grid[a][0], '%s grid of axes '
                         '%d', a, i)
                    if r.grid[a][1] == "{'lw': 2.0}":
                        need(l.get_linewidth() == 2., 'grid width')
                    elif 'ls' in r.grid[a][1]:
                        need(l.get_linestyle() == '--' and
                             mc.to_hex(l.get_color()) == '#ff0000',
                             'grid style')
            if self.lab_kw[i]:
                need(m.xaxis.label.get_fontsize() in (
                    7, mpl.rcParams['axes.labelsize']), 'label size')
            need(m.axison == r.on, 'frame of axes %d on: %s', i, m.axison)


class Core(Frames):
    OPS = CORE
    WHO = 0, 1


def scenarios(tier):
    a, b = (2, 3) if tier == 'quick' else (3, 4)
    return [Bfs('frames', Frames, a), Bfs('core', Core, b)]
