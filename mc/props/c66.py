"""Format records of artists; the current figure."""
import os
import shutil
import tempfile

import numpy as np
from matplotlib import colors as mc
from matplotlib import image, pyplot as plt

from pyhipp import plot
from pyhipp.plot import artist_formatter as af
from pyhipp.plot.color import Color

from ..engine import Bfs, System
from ..util import need, outcome

LEVEL = 'model_checking'
ASSUMPTIONS = ['a refused setting may come after accepted ones of one call']
BOUNDS = {'quick': 'all histories of depth 3 of 17-27 settings on five '
                   'kinds of formats; figure histories of depth 3',
          'thorough': 'depth 4'}

# documented keys and defaults of each kind, its own colour keys
KINDS = {
    'marker': (af.MarkerFormatter, dict(style='o', s=10, ec='k', fc='k',
                                        ea=1., fa=.3, elw=1.)),
    'line': (af.LineFormatter, dict(c='k', a=1., lw=2.5, ls='-')),
    'error': (af.ErrorBarFormatter, dict(c='k', a=1., lw=1, capsize=4,
                                         capthick=1)),
    'fill': (af.FillFormatter, dict(fc='k', ec='k', fa=.2, ea=1, lw=1,
                                    ls='-')),
    'text': (af.TextFormatter, dict(use_tex=True, c='k', a=1., s=15)),
}
COL = {'c': ('c', 'a'), 'fc': ('fc', 'fa'), 'ec': ('ec', 'ea')}


class Fmt(System):
    @staticmethod
    def inits():
        return [(k, g) for k in KINDS for g in (False, True)]

    def __init__(self, init):
        k, given = init
        cls, d = KINDS[k]
        self.r = dict(d)
        self.k = k
        kw = {}
        if given:
            key = list(d)[-1]
            kw = {key: 3}
            self.r[key] = 3
        self.f, self.g = cls(**kw), cls()

    def canon(self):
        return self.k, str(self.r)

    def parts(self, meth):
        two = 'fc' in self.r
        if meth == 'c' and two:
            return ['fc', 'ec']
        return [meth]

    def ops(self):
        ks = list(self.r)
        o = [('set', ks[0], 1), ('set', ks[-1], 2), ('set', 'zz', 1),
             ('upd', ((ks[1], 5),), ()), ('upd', (), ((ks[1], 6),)),
             ('upd', ((ks[1], 7), (ks[2], 7)), ((ks[2], 8),)),
             ('upd2', ks[0], 9, 4), ('upd', (('zz', 1),), ()),
             ('upd', (), (('zz', 1),)), ('ior', ((ks[2], 3),)),
             ('ior', (('zz', 3),)), ('none', ks[1])]
        m = ['c'] + (['fc', 'ec'] if 'fc' in self.r else [])
        o += [('col', x, c, a) for x in m for c, a in
              (('r', None), (None, .5), ('b', .25), (None, None), ('g', 0.))]
        return o

    def apply(self, op):
        f, k = self.f, op[0]
        bad = False
        if k in ('set', 'none'):
            v = op[2] if k == 'set' else None
            o = outcome(f.__setitem__, op[1], v)
            bad = op[1] not in self.r
            if not bad:
                self.r[op[1]] = v
            out = f
        elif k == 'upd':
            a, b = dict(op[1]), dict(op[2])
            o = outcome(f.update, *([a] if a else []), **b)
            bad = 'zz' in a or 'zz' in b
            if not bad:
                self.r.update(a)
                self.r.update(b)
            out = o[1]
        elif k == 'upd2':
            o = outcome(f.update, {op[1]: op[2]}, {op[1]: op[3]})
            self.r[op[1]] = op[3]
            out = o[1]
        elif k == 'ior':
            def fn():
                x = f
                x |= dict(op[1])
                return x
            o = outcome(fn)
            bad = 'zz' in dict(op[1])
            if not bad:
                self.r.update(dict(op[1]))
            out = o[1]
        else:
            _, m, c, a = op
            kw = {}
            if c is not None:
                kw['c'] = c
            if a is not None:
                kw['a'] = a
            o = outcome(getattr(f, m), **kw)
            for p in self.parts(m):
                kc, ka = COL[p]
                if c is not None:
                    self.r[kc] = c
                if a is not None:
                    self.r[ka] = a
            out = o[1]
        if bad:
            need(o[0] == 'err' and isinstance(o[1], KeyError),
                 'unknown setting gives %r', o[1])
        else:
            need(o[0] == 'ok' and out is f, '%s gives %r', k, o[1])
        self.observe()

    def observe(self):
        f, r = self.f, self.r
        for k, v in r.items():
            need(f[k] == v, '%s is %r, set to %r', k, f[k], v)
        ks = list(r)
        need(f[tuple(ks)] == tuple(r.values()), 'several settings')
        o = outcome(lambda: f['zz'])
        need(o[0] == 'err' and isinstance(o[1], KeyError), 'missing setting')
        for k, v in KINDS[self.k][1].items():
            need(self.g[k] == v, 'the default %s of another format is %r, '
                 'documented %r', k, self.g[k], v)
        for g, p in (('get_c', 'c'), ('get_fc', 'fc'), ('get_ec', 'ec')):
            kc, ka = COL[p]
            if kc in r and isinstance(r[kc], str) and \
                    isinstance(r.get(ka), (int, float)) and 0 <= r[ka] <= 1:
                if (p == 'c') == hasattr(f, 'get_c'):
                    c = getattr(f, g)()
                    need(isinstance(c, Color), 'colour type')
                    need(tuple(c.get_rgba()) == mc.to_rgba(r[kc], r[ka]),
                         '%s is %s, set to %s %s', g, c.get_rgba(), r[kc],
                         r[ka])
        if self.k == 'text':
            t = f.wrap_text('x_1')
            need(t == ('$x_1$' if r['use_tex'] else 'x_1'), 'text %r', t)


class Figs(System):
    """The current figure is the last one made and not closed."""

    @staticmethod
    def inits():
        return [None]

    def __init__(self, init):
        plt.close('all')
        self.d = tempfile.mkdtemp(prefix='mc-c66-')
        self.live, self.files, self.n = [], {}, 0

    def close(self):
        plt.close('all')
        shutil.rmtree(self.d, ignore_errors=True)

    def canon(self):
        return tuple(s for s, _ in self.live), tuple(sorted(
            self.files.items()))

    def ops(self):
        return [('fig', 1), ('fig', 2), ('sub', 1), ('close',), ('show',),
                ('save', 'a.png', 10), ('save', 'a.png', 20),
                ('save', 'b.pdf', None)]

    def apply(self, op):
        k = op[0]
        if k == 'fig':
            f = plot.figure(figsize=(op[1], 1))
            self.live.append(((op[1], 1), f._raw))
        elif k == 'sub':
            f, _ = plot.subplots(subsize=(1, 2))
            self.live.append(((1, 2), f._raw))
        elif k == 'close':
            plot.close()
            if self.live:
                self.live.pop()
        elif k == 'show':
            plot.show()
        elif self.live:
            p = os.path.join(self.d, op[1])
            kw = {} if op[2] is None else {'dpi': op[2]}
            plot.savefig(p, bbox_inches=None, **kw)
            self.files[op[1]] = None if op[2] is None else tuple(
                round(s * op[2]) for s in self.live[-1][0])
        need(len(plt.get_fignums()) == len(self.live), '%d figures open, '
             'expected %d', len(plt.get_fignums()), len(self.live))
        if self.live:
            need(plt.gcf() is self.live[-1][1], 'current figure')
        need(sorted(os.listdir(self.d)) == sorted(self.files), 'files %s',
             os.listdir(self.d))
        for n, s in self.files.items():
            p = os.path.join(self.d, n)
            if s is None:
                with open(p, 'rb') as g:
                    need(g.read(5) == b'%PDF-', 'format of %s', n)
            elif not self.replaying:
                a = image.imread(p)
                need(a.shape[:2] == s[::-1], '%s has %s pixels, expected %s',
                     n, a.shape[:2], s[::-1])


def scenarios(tier):
    a, b = (3, 3) if tier == 'quick' else (4, 4)
    return [Bfs('formats', Fmt, a), Bfs('figures', Figs, b)]
