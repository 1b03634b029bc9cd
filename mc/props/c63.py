"""Global drawing configuration and colours."""
import copy
import itertools

import numpy as np
import matplotlib as mpl
from matplotlib import colors as mc
from matplotlib import pyplot as plt

from pyhipp.plot.color import (Color, ColorSeq, Colormap, Normalize,
                               ScalarMappable, _predefined_color_seqs)
from pyhipp.plot.runtime_config import RuntimeConfig

from ..engine import Bfs, System, Tree
from ..util import need, outcome, eq, close

LEVEL = 'model_checking'
ASSUMPTIONS = []
BOUNDS = {'quick': 'configuration histories of depth 3 (two configurations, '
                   'updates, style sheets, activation); all colour '
                   'notations, colour maps and sequences of the alphabet',
          'thorough': 'configuration histories of depth 4'}

DEF = copy.deepcopy(RuntimeConfig.default_config_dict)
SHEETS = copy.deepcopy(RuntimeConfig.stylesheets)
UPS = {
    'lines': {'lines': {'linewidth': 7.}},
    'axes': {'axes': {'linewidth': 3.}, 'figure': {'dpi': 50}},
    'lines2': {'lines': {'linewidth': 1., 'markersize': 2.}},
    'new': {'savefig': {'dpi': 33}},
    'empty': {},
}


def flat(d):
    return {f'{g}.{k}': v for g, x in d.items() for k, v in x.items()}


def norm(v):
    if isinstance(v, (list, tuple)):
        return tuple(norm(x) for x in v)
    return float(v) if isinstance(v, (int, float)) and not isinstance(
        v, bool) else v


class Conf(System):
    @staticmethod
    def inits():
        return ['none', 'lines', 'empty']

    def __init__(self, init):
        mpl.rcdefaults()
        mpl.use('agg')
        self.base = {k: norm(mpl.rcParams[k]) for k in RC}
        self.c = [RuntimeConfig(copy.deepcopy(UPS.get(init))),
                  RuntimeConfig()]
        self.d = [dict(copy.deepcopy(DEF), **copy.deepcopy(
            UPS.get(init, {}))), copy.deepcopy(DEF)]
        self.rc = {}
        self.init = init

    def canon(self):
        return str(self.d), str(sorted(self.rc.items(), key=str))

    def ops(self):
        o = []
        for i in (0, 1):
            o += [(i, 'update', u) for u in UPS]
            o += [(i, 'update', None), (i, 'set'),
                  (i, 'sheet', ['mathtext-it'], True),
                  (i, 'sheet', ['mathtext-it'], False),
                  (i, 'sheet', ['default'], None),
                  (i, 'sheet', ['default', 'mathtext-it'], True),
                  (i, 'sheet', [], True),
                  (i, 'sheet', ['nope'], True)]
        o += [(0, 'fresh')]
        return o

    def activate(self, i):
        for k, v in flat(self.d[i]).items():
            self.rc[k] = norm(v)

    def apply(self, op):
        i, k = op[0], op[1]
        c = self.c[i]
        if k == 'update':
            u = None if op[2] is None else copy.deepcopy(UPS[op[2]])
            keep = copy.deepcopy(u)
            r = c.update(u) if u is not None else c.update()
            need(r is c, 'update does not return the configuration')
            need(u == keep, 'update changed its argument')
            self.d[i].update(keep or {})
        elif k == 'set':
            need(c.set_global() is c, 'set_global does not return itself')
            self.activate(i)
        elif k == 'sheet':
            if op[2] == ['nope']:
                o = outcome(c.use_stylesheets, 'nope')
                need(o[0] == 'err' and isinstance(o[1], KeyError),
                     'unknown style sheet: %r', o[1])
            else:
                r = c.use_stylesheets(*op[2]) if op[3] is None else \
                    c.use_stylesheets(*op[2], set_global=op[3])
                need(r is c, 'use_stylesheets does not return itself')
                for n in op[2]:
                    self.d[i].update(copy.deepcopy(SHEETS[n]))
                if op[3] is not False:
                    self.activate(i)
        else:
            x = RuntimeConfig()
            need(x.config_dict == DEF, 'a new configuration starts from %s',
                 diff(x.config_dict, DEF))
        if self.replaying:
            return
        for j in (0, 1):
            need(self.c[j].config_dict == self.d[j], 'configuration %d: %s',
                 j, diff(self.c[j].config_dict, self.d[j]))
        need(RuntimeConfig.default_config_dict == DEF, 'defaults changed: %s',
             diff(RuntimeConfig.default_config_dict, DEF))
        need(RuntimeConfig.stylesheets == SHEETS, 'style sheets changed')
        for p in RC:
            got = norm(mpl.rcParams[p])
            exp = self.rc.get(p, self.base[p])
            need(same(p, got, exp), 'setting %s is %r, expected %r', p, got,
                 exp)


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b)
            if a.get(k) != b.get(k)}


def same(p, a, b):
    if a == b:
        return True
    if 'color' in p and a is not None and b is not None:
        try:
            return mc.to_rgba(a) == mc.to_rgba(b)
        except ValueError:
            return False
    if p == 'font.family':
        return np.ravel(a).tolist() == np.ravel(b).tolist()
    if isinstance(a, str) and isinstance(b, str):
        return a.lower() == b.lower()
    return False


RC = sorted(set(flat(DEF)) | set(k for u in UPS.values() for k in flat(u)) |
            {'lines.markersize', 'axes.titlesize', 'figure.facecolor',
             'xtick.bottom'})


def import_body(ch):
    """Importing the package activates the documented defaults."""
    import subprocess
    import sys
    import json
    src = ('import json, matplotlib as mpl\n'
           'from pyhipp import plot\n'
           'assert type(plot.runtime_config).__name__ == "RuntimeConfig"\n'
           'print(json.dumps({k: mpl.rcParams[k] for k in %r}, default=str))'
           % (sorted(flat(DEF)),))
    o = subprocess.run([sys.executable, '-W', 'ignore', '-c', src],
                       capture_output=True, text=True)
    need(o.returncode == 0, 'import fails: %s', o.stderr[-300:])
    got = json.loads(o.stdout.splitlines()[-1])
    for k, v in flat(DEF).items():
        need(same(k, norm(got[k]), norm(v)), 'setting %s is %r, expected %r',
             k, got[k], v)
    return len(got)


SPECS = ['k', 'red', '#336699', '#33669980', '0.5', 'C1', 'none',
         (.1, .2, .3), (.1, .2, .3, .4), ('r', .3), 'Color', 'ColorA',
         np.array([.5, .25, 0.]), 'tab:blue']
BAD = ['nocolor', (1., 2., 3.), (.1, .2), 5, '#12']


def color_body(ch):
    s = ch.pick(SPECS + BAD, 'colour')
    a = ch.pick([None, 0., .5, 1.], 'alpha')
    b = ch.pick([None, .25, 1.], 'alpha later')
    bad = any(s is x for x in BAD)
    src = s
    if isinstance(s, str) and s == 'Color':
        src = Color((.1, .2, .3, .4))
        exp = (.1, .2, .3, .4)
    elif isinstance(s, str) and s == 'ColorA':
        src = Color('r', .7)
        exp = (1., 0., 0., .7)
    elif not bad:
        exp = tuple(float(v) for v in mc.to_rgba(s))
    o = outcome(Color, src, a) if a is not None or ch.flag('explicit') else \
        outcome(Color, src)
    if bad:
        need(o[0] == 'err' and isinstance(o[1], (ValueError, TypeError)),
             'bad colour accepted: %r', o[1])
        return 'bad', str(s)
    need(o[0] == 'ok', 'colour refused: %r', o[1])
    c = o[1]
    if a is not None:
        exp = exp[:3] + (a,)
    check_color(c, exp)
    if b is not None:
        need(c.alpha(b) is c, 'alpha does not return the colour')
        exp = exp[:3] + (b,)
        check_color(c, exp)
    if isinstance(src, Color):
        need(src.get_rgba() in ((.1, .2, .3, .4), (1., 0., 0., .7)),
             'the source colour changed')
    d = Color(c)
    check_color(d, exp)
    d.alpha(.125)
    check_color(c, exp)
    need(Color.to_rgba(c) == c.get_rgba(), 'to_rgba')
    return str(s), a, b


def check_color(c, exp):
    g = c.get_rgba()
    need(type(g) is tuple and len(g) == 4, 'rgba %r', g)
    close(g, exp, 'rgba')
    need(abs(c.get_alpha() - exp[3]) < 1e-12, 'alpha')


PRE = {'dark2': 'Dark2', 'tab10': 'tab10', 'set1': 'Set1', 'set2': 'Set2'}


def seq_body(ch):
    k = ch.pick(['predefined', 'sampled', 'map', 'levels', 'list', 'unknown',
                 'default', 'mappable'], 'kind')
    if k == 'predefined':
        n = ch.pick(sorted(PRE), 'name')
        s = ColorSeq.predefined(n)
        exp = [mc.to_rgba(c) for c in plt.get_cmap(PRE[n]).colors]
    elif k == 'default':
        n = ''
        s = ColorSeq.predefined()
        exp = [mc.to_rgba(c) for c in plt.get_cmap('Dark2').colors]
    elif k == 'sampled':
        n = ch.pick([f'{m}_{i}' for m in ('rainbow', 'gnuplot', 'gnuplot2')
                     for i in (5, 10)], 'name')
        s = ColorSeq.predefined(n)
        m, i = n.split('_')
        exp = [plt.get_cmap(m)(j / (int(i) - 1)) for j in range(int(i))]
    elif k in ('map', 'levels'):
        m = ch.pick(['viridis', 'jet', 'Dark2'], 'map')
        w = ch.flag('wrapped')
        al = ch.pick([None, .5], 'alpha')
        lv = ch.pick([1, 2, 7], 'n') if k == 'map' else \
            ch.pick([[0., .3, 1.], np.array([.9, .1]), [-1., 2.]], 'levels')
        src = Colormap(plt.get_cmap(m)) if w else m
        s = ColorSeq.from_cmap(src, lv, alpha=al) if al else \
            ColorSeq.from_cmap(src, lv)
        xs = [j / max(lv - 1, 1) for j in range(lv)] if k == 'map' else lv
        exp = [plt.get_cmap(m)(x, alpha=al) for x in xs]
        n = f'{m}{w}{al}{lv}'
    elif k == 'list':
        cs = ch.subset(['r', (.1, .2, .3, .4), '#336699'], 'colours')
        s = ColorSeq(cs)
        exp = [mc.to_rgba(c) for c in cs]
        n = str(cs)
        if ch.flag('colour objects'):
            s = ColorSeq([Color(c) for c in cs])
    elif k == 'mappable':
        m = ch.pick(['viridis', 'jet'], 'map')
        nm = ch.pick([(0., 1.), (2., 6.)], 'range')
        x = ScalarMappable.from_cmap(Colormap(plt.get_cmap(m)), Normalize(
            mc.Normalize(*nm)))
        need(isinstance(x, ScalarMappable), 'type')
        for v in (nm[0], nm[1], sum(nm) / 2):
            close(x._raw.to_rgba(v), plt.get_cmap(m)(
                (v - nm[0]) / (nm[1] - nm[0])), 'mapped colour')
        return k, m, nm
    else:
        o = outcome(ColorSeq.predefined, 'nope')
        need(o[0] == 'err' and isinstance(o[1], KeyError), 'unknown sequence')
        return k
    got = s.get_rgba()
    need(len(got) == len(exp) == len(s.colors), 'number of colours %d, '
         'expected %d', len(got), len(exp))
    for g, e, c in zip(got, exp, s.colors):
        close(g, e, 'colour of the sequence')
        check_color(c, e)
    if got:          # sequences do not share their colours
        s.colors[0].alpha(.0625)
        if k in ('predefined', 'sampled', 'default'):
            t = ColorSeq.predefined(n) if n else ColorSeq.predefined()
            close(t.get_rgba()[0], exp[0], 'predefined sequence changed')
    return k, n, len(got)


def scenarios(tier):
    return [Bfs('config', Conf, 3 if tier == 'quick' else 4),
            Tree('import', import_body),
            Tree('color', color_body), Tree('sequence', seq_body)]
