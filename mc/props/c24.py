"""Resampling and noise under every outcome of the random source."""
import math

import numpy as np

from pyhipp.core import DataDict
from pyhipp.stats import Bootstrap, RandomNoise, Rng

from ..engine import Tree
from ..util import need, outcome, eq, close, Frozen

LEVEL = 'exploration'
RULE = ('the random source is replaced by one whose every answer is a choice; '
        'all answer sequences are executed; distinct by (case, answers)')
ASSUMPTIONS = ['data sets have at least one row',
               'random answers are uniform integers in range / any real']
BOUNDS = {'quick': '1-2 data sets of 1-3 rows, 1-2 resamples, every index '
                   'vector; noise of up to 2x2 draws from 3 values; '
                   'limits of 0-7 rows for each of 1-3 data sets',
          'thorough': '1-3 resamples'}
NRES = 2


class Scripted(np.random.Generator):
    """A generator whose answers are choices of the explorer."""

    def __init__(self, ch, normals=(0., 1., -2.)):
        super().__init__(np.random.PCG64(0))
        self.ch, self.normals = ch, list(normals)
        self.log, self.pop = [], []

    def _shape(self, size):
        return () if size is None else (size,) if np.isscalar(size) else \
            tuple(size)

    def _draw(self, size, options, what):
        sh = self._shape(size)
        n = int(np.prod(sh))
        v = [self.ch.pick(options, what) for _ in range(n)]
        return v, sh

    def choice(self, a, size=None, replace=True, p=None, axis=0,
               shuffle=True):
        need(replace and p is None, 'resampling without replacement')
        n = a if np.isscalar(a) else len(a)
        v, sh = self._draw(size, list(range(n)), 'index')
        self.log.append(tuple(v))
        self.pop.append((0, n))
        ids = np.array(v, dtype=int).reshape(sh)
        return ids if np.isscalar(a) else np.asarray(a)[ids]

    def integers(self, low, high=None, size=None, dtype=np.int64,
                 endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        v, sh = self._draw(size, list(range(low, high)), 'index')
        self.log.append(tuple(v))
        self.pop.append((low, high))
        return np.array(v, dtype=dtype).reshape(sh)

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        v, sh = self._draw(size, self.normals, 'normal')
        self.log.append(tuple(v))
        return np.array(v).reshape(sh)

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * self.standard_normal(size)


def resample_body(ch):
    shapes = ch.pick([((1,),), ((2,),), ((3,),), ((2, 'two'),),
                      ((2,), (1,)), ((2,), (2, 'two'))], 'data sets')
    n_res = ch.pick(list(range(1, NRES + 1)), 'n_resample')
    if sum(s[0] for s in shapes) * n_res > 6:
        return None
    limit = ch.pick([None, 1, 2, 9], 'max size')
    keep = ch.flag('keep_samples')
    use_kw = ch.flag('stats_kw')
    wrap = ch.pick([list, tuple, iter], 'given as')
    gen = Scripted(ch)
    rng = gen if not keep else Rng(gen)
    dsets, ref = [], []
    for i, s in enumerate(shapes):
        n = s[0]
        d = {f'a{i}': np.array([10. * i + j * j + 1. for j in range(n)])}
        if len(s) > 1:
            d[f'b{i}'] = np.array([[j, -2 * j] for j in range(n)])
        dsets.append(d)
        ref.append({k: v.copy() for k, v in d.items()})
    calls = []

    def fn(**kw):
        calls.append({k: (v.copy() if isinstance(v, np.ndarray) else v)
                      for k, v in kw.items()})
        a = kw['a0']
        out = {'m': float(a.mean()), 'v': np.array([a.min(), a.max()]),
               'extra': len(calls)}
        a[...] = -777.          # must not reach the caller's data
        return out
    sizes = None if limit is None else [limit] * len(dsets)
    if sizes is not None:
        sizes = wrap(sizes)
    res = Bootstrap.resampled_call(
        fn, wrap(dsets), wrap(['m', 'v']), stats_kw={'scale': 3} if use_kw else None,
        n_resample=n_res, rng=rng, keep_samples=keep, dsets_max_sizes=sizes)
    need(isinstance(res, DataDict), 'result type')
    need(len(calls) == n_res, '%d calls for %d resamples', len(calls), n_res)
    log = list(gen.log)
    need(len(log) == n_res * len(dsets), '%d draws, expected one per data '
         'set and resample', len(log))
    ms, vs = [], []
    for r, c in enumerate(calls):
        names = {k for d in ref for k in d} | ({'scale'} if use_kw else set())
        need(set(c) == names, 'arguments %s, expected %s', sorted(c), names)
        if use_kw:
            need(c['scale'] == 3, 'stats_kw')
        for i, d in enumerate(ref):
            ids = list(log[r * len(ref) + i])
            n = shapes[i][0]
            want_n = n if limit is None else min(n, limit)
            need(len(ids) == want_n, 'resample of size %d, expected %d',
                 len(ids), want_n)
            pop = gen.pop[r * len(ref) + i]
            need(pop == (0, n), 'rows %s..%s of %d can be drawn', *pop, n)
            for k, v in d.items():
                eq(c[k], v[ids], f'resampled {k} by {ids}')
        ms.append(float(c['a0'].mean()))
        vs.append([c['a0'].min(), c['a0'].max()])
    ms, vs = np.array(ms), np.array(vs)
    close(res['m'], ms.mean(), 'mean over resamples')
    close(res['m_sd'], math.sqrt(((ms - ms.mean())**2).mean()), 'sd')
    close(res['v'], vs.mean(0), 'mean over resamples')
    close(res['v_sd'], np.sqrt(((vs - vs.mean(0))**2).mean(0)), 'sd')
    need(res['extra'] == 1, 'other outputs are those of the first resample')
    want = {'m', 'm_sd', 'v', 'v_sd', 'extra'}
    if keep:
        want |= {'m_samples', 'v_samples'}
        close(res['m_samples'], ms, 'samples')
        close(res['v_samples'], vs, 'samples')
    need(set(res.keys()) == want, 'result keys %s', sorted(res.keys()))
    for d, d0 in zip(dsets, ref):
        need(list(d) == list(d0), 'data set keys changed')
        for k in d0:
            eq(d[k], d0[k], f'input {k} after the call')
    return (shapes, n_res, limit, keep, use_kw, wrap.__name__, tuple(log))


class Pattern(Scripted):
    """Long draws: one choice decides the whole sequence."""

    def _draw(self, size, options, what):
        sh = self._shape(size)
        n, m = int(np.prod(sh)), len(options)
        p = self.ch.pick(['first', 'last', 'up', 'down'], what)
        return [options[{'first': 0, 'last': m - 1, 'up': i % m,
                         'down': -1 - i % m}[p]] for i in range(n)], sh


def large_body(ch):
    """Data sets of many rows are resampled to their full size."""
    n = ch.pick([100, 121, 1025, 70000], 'rows')
    more = ch.pick([None, 3, 300], 'rows of a second data set')
    limit = ch.pick([None, 128, 65536, 10**6], 'max size')
    gen = Pattern(ch)
    dsets = [{'a': np.arange(n), 'b': np.arange(2. * n).reshape(n, 2)}]
    if more:
        dsets.append({'c': np.arange(more)})
    sizes = None if limit is None else [limit] * len(dsets)
    seen = []
    Bootstrap.resampled_call(
        lambda **kw: seen.append(kw) or {'m': 1.}, dsets, ['m'],
        n_resample=1, rng=gen, dsets_max_sizes=sizes)
    kw, = seen
    for d, ids, pop in zip(dsets, gen.log, gen.pop):
        for k, v in d.items():
            need(pop == (0, len(v)), 'rows %s..%s of %d can be drawn', *pop,
                 len(v))
            w = len(v) if limit is None else min(len(v), limit)
            need(len(kw[k]) == w, '%s: %d rows resampled, expected %d', k,
                 len(kw[k]), w)
            eq(kw[k], v[list(ids)], f'resampled {k}')
    return n, more, limit, tuple(i[-1] for i in gen.log)


def limits_body(ch):
    """Every data set has its own largest size, zero included."""
    ns = [ch.pick([1, 2, 5] if i < 2 else [2], 'rows')
          for i in range(ch.pick([1, 2, 3], 'data sets'))]
    lim = [ch.pick([0, 1, 3, 7] if i < 2 else [1, 7], 'max size')
           for i in range(len(ns))]
    gen = Pattern(ch, ())
    dsets = [{f'a{i}': np.arange(n) + 10 * i} for i, n in enumerate(ns)]
    out = Bootstrap.resampled_call(
        lambda **kw: {'n': [len(kw[f'a{i}']) for i in range(len(ns))],
                      **kw}, dsets, ['n'], n_resample=1, rng=gen,
        dsets_max_sizes=lim)
    want = [min(n, m) for n, m in zip(ns, lim)]
    close(out['n'], want, f'sizes of resamples of {ns} limited to {lim}')
    for i, d in enumerate(dsets):
        eq(out[f'a{i}'], d[f'a{i}'][list(gen.log[i])], 'resampled rows')
    return ns, lim, gen.log


VALUES = [[1, 2, 2], [2**60 + 1, 2**60 + 1, 2**60 + 1], [True, False, True],
          [1e8, 1e8 + 1, 1e8 + 2], [1e-200, 3e-200, 5e-200], [np.nan, 1., 2.],
          [np.inf, 1., 2.], [1 + 2j, 0j, 3j], [[1., 2.], [3., 4.], [5., 9.]],
          [[[1]], [[2]], [[6]]]]


def outputs_body(ch):
    """What every kind of statistic is turned into."""
    vs = ch.pick(VALUES, 'values')[:ch.pick([1, 2, 3], 'resamples')]
    form = ch.pick(['as is', 'array', 'float32'], 'form')
    if form == 'float32':
        if not np.all(np.isreal(vs)) or np.nanmin(np.abs(vs)) < 1e-100:
            return None
    it = iter(vs)

    def fn(x):
        v = next(it)
        v = v if form == 'as is' else np.array(v) if form == 'array' else \
            np.array(v, dtype=np.float32)
        return {'v': v, 'first': v}
    out = Bootstrap.resampled_call(fn, [{'x': np.arange(2)}], ['v'],
                                   n_resample=len(vs), keep_samples=True)
    smp = np.array(vs, dtype=np.float32 if form == 'float32' else None)
    eq(out['v_samples'], smp, 'samples are those returned')
    need(out['v_samples'].dtype == smp.dtype, 'samples of type %s became %s',
         smp.dtype, out['v_samples'].dtype)
    s = smp.astype(complex if np.iscomplexobj(smp) else float)
    with np.errstate(all='ignore'):
        m = s.sum(0) / len(s)
        sd = np.sqrt((np.abs(s - m)**2).sum(0) / len(s))
    scale = np.max(np.abs(np.where(np.isfinite(s), s, 0)))
    rt = 1e-6 if form == 'float32' else 1e-12
    close(out['v'], m, f'mean of {vs}', rtol=rt, atol=0)
    if form == 'float32':
        close(out['v_sd'], sd, f'sd of {vs}', rtol=1e-4, atol=1e-6 * scale)
    elif scale > 1e-100:    # squares of smaller ones underflow
        close(out['v_sd'], sd, f'sd of {vs}', rtol=1e-7, atol=1e-14 * scale)
    eq(np.asarray(out['first']), smp[0], 'other outputs')
    return repr(vs), form


def noise_body(ch):
    n = ch.pick([0, 1, 2, 3], 'n')
    rep = ch.pick([None, 1, 2], 'n_repeats')
    if n * (rep or 1) > 4:
        return None
    sigma = ch.pick([0., .5, 2], 'sigma')
    lg = ch.pick([False, True], 'in_lg')
    form = ch.pick(['array', 'list', 'int'], 'form')
    gen = Scripted(ch)
    nz = RandomNoise(sigma, noise_in_lg=lg, rng=gen)
    x = [3., -1., 0.5][:n]
    a = np.array(x) if form == 'array' else x
    if form == 'int':
        x = [16777217., -1., 2.][:n]
        a = np.array(x, dtype=int)
    fz = Frozen(**({'a': a} if isinstance(a, np.ndarray) else {}))
    total = []
    for call in range(1 if n * (rep or 1) > 2 else 2):
        got = nz.add_to(a) if rep is None else nz.add_to(a, rep)
        z = [v for l in gen.log for v in l]
        gen.log.clear()
        k = rep or 1
        need(len(z) == k * n, '%d draws for %d values', len(z), k * n)
        want = [[(x[j] * 10**(sigma * z[i * n + j])) if lg else
                 x[j] + sigma * z[i * n + j] for j in range(n)]
                for i in range(k)]
        want = np.array(want).reshape(k, n)
        close(got, want[0] if k == 1 else want, 'noisy values')
        total += z
    fz.check('add_to')
    return (n, rep, sigma, lg, form, tuple(total))


def reject_body(ch):
    d = ch.pick(['uniform', '', 'Normal'], 'distribution')
    need(outcome(RandomNoise, 1., noise_dist=d)[0] == 'err',
         'distribution %r accepted', d)
    return d


def seeded_body(ch):
    """With a seed, the whole procedure is reproducible."""
    seed = ch.pick([0, 1, 12345], 'seed')
    n = ch.pick([3, 10], 'n')
    x = np.arange(n) * 1.5

    def fn(x):
        return {'m': x.mean()}

    def run(rng):
        return Bootstrap.resampled_call(fn, [{'x': x}], ['m'],
                                        n_resample=5, rng=rng,
                                        keep_samples=True)['m_samples']
    a, b = run(seed), run(seed)
    eq(a, b, 'same seed')
    g = np.random.default_rng(seed)
    c, d = run(g), run(g)
    eq(c, a, 'generator in the same state')
    need(not np.array_equal(d, c), 'a shared generator does not advance')
    d = Bootstrap.resampled_call(fn, [{'x': x}], ['m'], keep_samples=True)
    eq(d['m_samples'], Bootstrap.resampled_call(
        fn, [{'x': x}], ['m'], keep_samples=True, rng=0, n_resample=10,
        stats_kw=None, dsets_max_sizes=None)['m_samples'], 'defaults')
    need(set(Bootstrap.resampled_call(fn, [{'x': x}], ['m'])) ==
         {'m', 'm_sd'}, 'samples returned by default')
    eq(RandomNoise(1.).add_to(x), RandomNoise(
        1., 'normal', False, 0).add_to(x, 1), 'default noise')
    r = RandomNoise(1., rng=seed)
    e, f = r.add_to(x), r.add_to(x)
    need(not np.array_equal(e, f), 'noise repeats itself')
    eq(RandomNoise(1., rng=seed).add_to(x), e, 'noise with the same seed')
    return (seed, n)


def scenarios(tier):
    global NRES
    NRES = 2 if tier == 'quick' else 3
    return [Tree(f.__name__[:-5], f) for f in (
        resample_body, large_body, limits_body, outputs_body, noise_body, reject_body, seeded_body)]
