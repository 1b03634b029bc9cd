"""Binned volume densities with resampling, noise and overlapping bins."""
import math

import numpy as np

from pyhipp.astro.stats.lss import BinnedVolumeDensity as BVD
from pyhipp.core import DataDict
from pyhipp.stats import RandomNoise

from .. import layout
from ..engine import Tree
from ..util import need, outcome, eq, close, Frozen
from .c20 import rquant
from .c24 import Scripted

LEVEL = 'exploration'
RULE = ('every data set and binning of the alphabets under every answer of '
        'the random source; distinct by (case, answers)')
ASSUMPTIONS = ['at least one value falls into the range',
               'no value lies on a bin edge other than the lowest']
BOUNDS = {'quick': '1-3 values, 1-2 resamples with every index vector, noise '
                   'from 2 values, 5 binnings x 1-3 sub-bins; 6 types of '
                   'values, 6 of weights, 5 of limits',
          'thorough': '1-4 values'}
NX = 3
POOL = [.3, 1.7, 2.9, 1.1]
WTS = [2., .5, 1., 4.]


def ref_edges(bins, sub, lo, hi):
    if isinstance(bins, list):
        e = [float(v) for v in bins]
    else:
        e = [lo + (hi - lo) * i / bins for i in range(bins + 1)]
    out = []
    for i in range(len(e) - 1):
        out += [e[i] + (e[i + 1] - e[i]) * k / sub for k in range(sub)]
    return out + [e[-1]]


def ref_hist(x, w, e, sub):
    h = [0.] * (len(e) - 1)
    for v, u in zip(x, w):
        for i in range(len(h)):
            last = i == len(h) - 1
            if e[i] <= v < e[i + 1] or (last and v == e[i + 1]):
                h[i] += u
    return [math.fsum(h[i:i + sub]) for i in range(len(h) - sub + 1)]


def density_body(ch):
    n = ch.pick(list(range(1, NX + 1)), 'n')
    x = ch.pick([POOL[:n], POOL[:n][::-1] + [7.5], [-1.] + POOL[:n]],
                'values')
    spec = ch.pick([('n', 2, (0., 3.3)), ('n', 1, (0.1, 2.)),
                    ('n', 3, None), ('n', 2, 'p'), ('e', [0., 1., 4.], None),
                    ('e', [.3, 2.]), ('e', [0., .5, 1.2, 3.3, 8.])],
                   'binning')
    sub = ch.pick([None, 1, 2], 'sub_bins')
    if spec[0] == 'n' and spec[2] is None and n == 1 and len(x) == 1:
        return None
    weighted = ch.flag('weighted')
    volume = ch.pick([None, 2.5], 'volume')
    pad = ch.pick([None, 1e-3], 'lg_y_pad')
    noise = ch.pick([None, .31], 'noise')
    nres = ch.pick([1, 2], 'n_bootstrap')
    if (len(x) > 2 and nres > 1) or (noise and len(x) > 2) or \
            (noise and (volume or pad)) or (volume is not None and
                                            pad is None):
        return None
    kw = {}
    lo = hi = None
    if spec[0] == 'n':
        kw['bins'] = spec[1]
        if spec[2] == 'p':
            kw['p_range'] = (.1, .85)
            lo, hi = rquant(x, .1), rquant(x, .85)
            if not lo < hi:
                return None
        elif spec[2] is not None:
            kw['range'] = spec[2]
            lo, hi = spec[2]
        else:
            lo, hi = min(x), max(x)
    else:
        kw['bins'] = np.array(spec[1])
        lo, hi = spec[1][0], spec[1][-1]
    s = 3 if sub is None else sub
    e = ref_edges(spec[1], s, lo, hi)
    idx = [i for i, v in enumerate(x) if lo <= v < hi]
    if not idx:
        return None
    # values at inner edges depend on rounding: not decided
    for v in x:
        if any(abs(v - t) < 1e-9 for t in e[1:]) and v < hi - 1e-9:
            return None
    gen = Scripted(ch)
    ngen = Scripted(ch, normals=(0., 1.))
    xa = np.array(x)
    w = [WTS[i % 4] for i in range(len(x))]
    wa = np.array(w)
    fz = Frozen(xa=xa, wa=wa)
    if sub is not None:
        kw['sub_bins'] = sub
    if weighted:
        kw['weights'] = wa
    if volume is not None:
        kw['volume'] = volume
    if pad is not None:
        kw['policy'] = BVD.Policy(lg_y_pad=pad)
    if noise is not None:
        kw['noise'] = RandomNoise(noise, rng=ngen)
    out = BVD.from_raw(xa, n_bootstrap=nres, rng=gen, **kw)
    fz.check('from_raw')
    need(isinstance(out, DataDict), 'result type')
    log, nlog = list(gen.log), list(ngen.log)
    need(len(log) == nres and all(len(l) == len(idx) for l in log),
         'draws %s for %d selected values', log, len(idx))
    H = []
    for r in range(nres):
        ids = [idx[i] for i in log[r]]
        v = [x[i] for i in ids]
        if noise is not None:
            v = [a + noise * z for a, z in zip(v, nlog[r])]
            if any(abs(a - t) < 1e-9 for a in v for t in e):
                return None
        H.append(ref_hist(v, [w[i] if weighted else 1. for i in ids], e, s))
    m = len(H[0])
    dx = [e[i + s] - e[i] for i in range(m)]
    close(out['x'], [.5 * (e[i + s] + e[i]) for i in range(m)], 'x')
    close(out['dx'], dx, 'dx')
    close(out['sub_e'], e, 'sub_e')
    vol = 1. if volume is None else volume
    floor = 1e-8 if pad is None else pad
    Y = [[h / (vol * d) for h, d in zip(hh, dx)] for hh in H]
    L = [[math.log10(max(y, floor)) for y in yy] for yy in Y]
    for k, v in (('h', H), ('y', Y), ('lg_y', L)):
        v = np.array(v, dtype=float)
        close(out[k + '_samples'], v, k + ' samples', rtol=1e-9)
        close(out[k], v.mean(0), k)
        close(out[k + '_sd'], np.sqrt(((v - v.mean(0))**2).mean(0)),
              k + ' sd', atol=1e-9)
    return (tuple(x), str(spec), sub, weighted, volume, pad, noise,
            tuple(log), tuple(nlog))


def kinds_body(ch):
    """Types of values, values next to the limits, both kinds of limits,
    extreme volumes and floors, vanishing weights."""
    kind = ch.pick(['f8', 'i8', 'i4', 'u1', 'f4', 'list'], 'type')
    x = ch.pick([[3, 1, 7, 2, 5, 1], [7, 5, 3, 2, 1, 0],
                 [200, 1, 4, 2, 0, 9]], 'values')
    lim = ch.pick(['range', 'both', 'inner both', 'edges', 'next'], 'limits')
    volume, pad = ch.pick([(1., None), (1e-6, None), (1e9, None),
                           (1e9, 1e-14), (1, 1e-3), (3, 1e2)], 'volume, pad')
    weights = ch.pick([None, 'f8', 'i8', 'zero', 'mostly zero', 'negative'],
                      'weights')
    sub = ch.pick([1, 3], 'sub_bins')
    if lim == 'next':
        # just below and just above the ends of the range
        if kind not in ('f8', 'list'):
            return None
        x = [1. - 1e-9, 1., 1. + 1e-9, 6.2 - 1e-9, 6.2 + 1e-9, 3.]
    xa = x if kind == 'list' else np.array(x, dtype=kind)
    w = {None: [1.] * 6, 'f8': [.5, 2., 1., 4., 8., .25],
         'i8': [1, 2, 3, 4, 5, 6], 'zero': [0.] * 6,
         'mostly zero': [0., 0., 3., 0., 0., 0.],
         'negative': [-1., 2., -3., 1., .5, 4.]}[weights]
    kw = dict(bins=2, sub_bins=sub)
    lo, hi = .9, 6.2
    if lim in ('range', 'next'):
        lo = 1. if lim == 'next' else lo
        kw['range'] = (lo, hi)
    elif lim == 'both':
        kw['range'], kw['p_range'] = (lo, hi), (0., .7)
        lo, hi = max(lo, min(x)), min(hi, rquant(x, .7))
    elif lim == 'inner both':
        kw['range'], kw['p_range'] = (-50., 500.), (.15, .85)
        lo, hi = rquant(x, .15), rquant(x, .85)
    else:
        kw['bins'] = np.array([.9, 2.2, 6.2])
    if weights:
        kw['weights'] = np.array(w)
    if pad is not None:
        kw['policy'] = BVD.Policy(lg_y_pad=pad)
    e = ref_edges([.9, 2.2, 6.2] if lim == 'edges' else 2, sub, lo, hi)
    sel = [i for i, v in enumerate(x) if lo <= v < hi]
    if any(abs(v - t) < 1e-10 for v in x for t in e[1:]):
        return None
    log = []

    class Rng(np.random.Generator):
        def _ids(self, n, m):
            log.append([(3 * k * len(log) + k) % n for k in range(m)])
            return np.array(log[-1], dtype=int)

        def choice(self, a, size=None, replace=True, p=None, **kw):
            n = a if np.isscalar(a) else len(a)
            ids = self._ids(n, int(np.prod(size)))
            return ids if np.isscalar(a) else np.asarray(a)[ids]

        def integers(self, low, high=None, size=None, **kw):
            n = low if high is None else high
            return self._ids(n, int(np.prod(size)))
    fz = None if kind == 'list' else Frozen(xa=xa, w=kw.get('weights', xa))
    out = BVD.from_raw(xa, volume, n_bootstrap=3,
                       rng=Rng(np.random.PCG64(0)), **kw)
    if fz:
        fz.check('from_raw')
    need(len(log) == 3 and all(len(l) == len(sel) for l in log),
         'draws %s for %d selected values', log, len(sel))
    H = [ref_hist([x[sel[i]] for i in l], [w[sel[i]] for i in l], e, sub)
         for l in log]
    dx = [e[i + sub] - e[i] for i in range(len(H[0]))]
    Y = [[h / (volume * d) for h, d in zip(hh, dx)] for hh in H]
    L = [[math.log10(max(y, 1e-8 if pad is None else pad)) for y in yy]
         for yy in Y]
    t = 1e-5 if kind == 'f4' else 1e-9      # edges in single precision
    close(out['dx'], dx, 'dx', rtol=t)
    close(out['sub_e'], e, 'sub_e', rtol=t)
    for k, v in (('h', H), ('y', Y), ('lg_y', L)):
        v = np.array(v, dtype=float)
        s = np.abs(v).max() + 1e-300
        close(out[k + '_samples'], v, k + ' samples', rtol=t,
              atol=t if k[0] == 'l' else 0.)
        close(out[k], v.mean(0), k, rtol=t, atol=max(t * 1e-3, 1e-12) * s)
        close(out[k + '_sd'], np.sqrt(((v - v.mean(0))**2).mean(0)),
              k + ' sd', rtol=1e-7, atol=max(t, 1e-7) * s)
    return (kind, tuple(x), lim, volume, pad, weights, sub)


def reject_body(ch):
    x = np.array([1., 2., 3.])
    case = ch.pick(['range with edges', 'sub_bins 0'], 'case')
    kw = {'range with edges': dict(bins=[0., 1., 4.], range=(0., 4.)),
          'sub_bins 0': dict(bins=2, sub_bins=0)}[case]
    need(outcome(BVD.from_raw, x, **kw)[0] == 'err', '%s accepted', case)
    return case


def memory():
    x = np.array([.1, .2, .35, .5, .55, .8])
    w = np.array([1., .5, 2., 1.25, 4., 8.])
    return layout.tree({
        'density': (lambda a: BVD.from_raw(
            a, 2., bins=3, range=(0., 1.), n_bootstrap=4, rng=1), x),
        'weighted': (lambda a, b: BVD.from_raw(
            a, 2., bins=3, range=(0., 1.), weights=b, n_bootstrap=4, rng=1),
            x, w),
        'edges': (lambda a, b: BVD.from_raw(
            a, 2., bins=b, range=None, n_bootstrap=4, rng=1), x,
            np.array([0., .3, .6, .9])),
    })


def scenarios(tier):
    global NX
    NX = 3 if tier == 'quick' else 4
    return [Tree(f.__name__[:-5], f) for f in (density_body, kinds_body,
                                               reject_body)] + [memory()]
