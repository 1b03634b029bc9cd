"""Statistical reductions with masks, weights and empty selections."""
import math

import numpy as np

from pyhipp.stats import reduction as R
from pyhipp.stats.summary import SummaryFloatArray1D
from pyhipp.stats.stacking import Stack

from .. import layout
from ..engine import Tree
from ..util import need, outcome, eq, close, Frozen

LEVEL = 'exploration'
RULE = ('every (values, mask, weights, layout) of the alphabet through every '
        'reduction; masked-out entries hold NaN or infinities in half of the '
        'cases; distinct by the case')
ASSUMPTIONS = ['weights of selected entries are non-negative with a positive '
               'sum', 'weighted quantiles only for positive weights, with '
               'equal values equally weighted', 'for an empty selection only the central '
               'value of a quantile errorbar is claimed',
               'selected values are finite, but for count, sum and mean']
BOUNDS = {'quick': 'vectors of 0-3 entries from 4 values, all masks, no '
                   'weights or all weights from 3 values; matrices of 1-3 '
                   'rows', 'thorough': 'vectors of 0-4 entries'}
NX = 3
VALS = [0., 3., -2.5, 1.]
FILL = -1.0e10
PS = {'median+1sigma': (0.16, 0.5, 0.84), 'median+2sigma': (.025, .5, .975),
      '1sigma': (.16, .84), 'median+3sigma': (.005, .5, .995),
      '2sigma': (.025, .975), '3sigma': (.005, .995),
      'lower_3sigmas': (.68, .95, .99), 'upper_3sigmas': (.01, .05, .32)}


def rquant(xs, p, ws=None):
    if ws is None:
        s = sorted(xs)
        h = p * (len(s) - 1)
        i = min(int(math.floor(h)), len(s) - 2) if len(s) > 1 else 0
        if len(s) == 1:
            return s[0]
        return s[i] + (h - i) * (s[i + 1] - s[i])
    o = sorted(range(len(xs)), key=lambda i: xs[i])
    tot = sum(ws)
    c, cum = 0., []
    for i in o:
        c += ws[i] / tot
        cum.append(c)
    v = [xs[i] for i in o]
    if p <= cum[0]:
        return v[0]
    for i in range(1, len(v)):
        if p <= cum[i]:
            return v[i - 1] + (v[i] - v[i - 1]) * (p - cum[i - 1]) / (
                cum[i] - cum[i - 1])
    return v[-1]


def rmean(xs, ws):
    if ws is None:
        return math.fsum(xs) / len(xs)
    return math.fsum(a * b for a, b in zip(xs, ws)) / math.fsum(ws)


def rsd(xs, ws):
    m = rmean(xs, ws)
    return math.sqrt(rmean([(a - m)**2 for a in xs], ws))


class Spec:
    """Name, constructor, shape suffix, reference; q: needs quantile rules."""

    def __init__(self, name, mk, ref, fill, q=False, n=None):
        self.name, self.mk, self.ref, self.fill, self.q, self.n = \
            name, mk, ref, fill, q, n


def quants(ps):
    return lambda x, w: [rquant(x, p, w) for p in ps]


def ebar(ps):
    def f(x, w):
        lo, me, hi = (rquant(x, p, w) for p in ps)
        return [me, me - lo, hi - me]
    return f


SPECS = [
    Spec('count', lambda: R.Count(), lambda x, w: len(x), 0),
    Spec('sum', lambda: R.Sum(), lambda x, w: math.fsum(
        x if w is None else [a * b for a, b in zip(x, w)]), 0.),
    Spec('mean', lambda: R.Mean(), rmean, FILL),
    Spec('mean7', lambda: R.Mean(empty_fill=7.), rmean, 7.),
    Spec('sd', lambda: R.StdDev(), rsd, FILL),
    Spec('sd-1', lambda: R.StdDev(empty_fill=-1.), rsd, -1.),
    Spec('median', lambda: R.Median(), lambda x, w: rquant(x, .5, w), FILL,
         True),
    Spec('median3', lambda: R.Median(empty_fill=3.), lambda x, w:
         rquant(x, .5, w), 3., True),
    Spec('q.25', lambda: R.Quantile(.25), lambda x, w: rquant(x, .25, w),
         FILL, True),
    Spec('qs', lambda: R.Quantile([.9, .25, .5], empty_fill=2.),
         quants([.9, .25, .5]), [2.] * 3, True),
    Spec('q01', lambda: R.Quantile([0, 1], empty_fill=.5), quants([0, 1]),
         [.5, .5], True),
    Spec('q1', lambda: R.Quantile(1, empty_fill=-.25), lambda x, w:
         rquant(x, 1, w), -.25, True),
    Spec('qf', lambda: R.Quantile((.2, .7), empty_fill=[1.5, 2]),
         quants([.2, .7]), [1.5, 2.], True),
    Spec('q1s', lambda: R.Quantile(), quants(PS['median+1sigma']),
         [FILL] * 3, True),
    Spec('ebar', lambda: R.Errorbar(), ebar(PS['median+1sigma']),
         [FILL, None, None], True),
    Spec('ebar2', lambda: R.Errorbar('median+2sigma', empty_fill=5.),
         ebar(PS['median+2sigma']), [5., None, None], True),
    Spec('ebarsd', lambda: R.Errorbar('mean+sd'),
         lambda x, w: [rmean(x, w), rsd(x, w), rsd(x, w)], [FILL] * 3),
]


def expect(s, x, w, m):
    """Reference for one row; None if not claimed."""
    sel = [i for i in range(len(x)) if m is None or m[i]]
    xs = [x[i] for i in sel]
    ws = None if w is None else [w[i] for i in sel]
    if not sel:
        return s.fill
    if ws is not None and sum(ws) <= 0 and s.name not in ('count', 'sum'):
        return None
    if s.q and ws is not None and (len(set(xs)) < len(set(
            zip(xs, ws))) or min(ws) <= (
            1e-4 * sum(ws) if s.name in ('q01', 'q1') else 0)):
        return None
    return s.ref(xs, ws)


def compare(s, got, want, what):
    got = np.asarray(got)
    want = list(want) if isinstance(want, list) else want
    if isinstance(want, list):
        need(got.shape == (len(want),), '%s: shape %s', what, got.shape)
        for g, w in zip(got.tolist(), want):
            if w is not None:
                close(g, w, what, rtol=1e-9, atol=1e-9)
    else:
        need(got.shape == (), '%s: shape %s', what, got.shape)
        close(float(got), float(want), what, rtol=1e-9, atol=1e-9)


def poison(x, m, how):
    if m is None or how == 'keep':
        return x
    return [v if s else {'nan': math.nan, 'inf': math.inf}[how]
            for v, s in zip(x, m)]


def call(s, x, w, m):
    o = outcome(s.mk(), x, weight=w, mask=m)
    need(o[0] == 'ok', '%s(%r, weight=%r, mask=%r): %r', s.name, x, w, m,
         o[1])
    return o[1]


def vec_body(ch):
    n = ch.pick(list(range(NX + 1)), 'n')
    x = ch.many(VALS, n, 'x')
    m = [ch.flag(f'mask[{i}]') for i in range(n)] if ch.flag('masked') \
        else None
    w = ch.many([1., 0., 2.5], n, 'w') if ch.flag('weighted') else None
    hows = ['keep', 'nan', 'inf'] if m is not None and not all(m) else [
        'keep']
    for how in hows:
        px = poison(x, m, how)
        pw = None if w is None else poison(w, m, how)
        ax = np.array(px, dtype=float)
        aw = None if pw is None else np.array(pw, dtype=float)
        am = None if m is None else np.array(m, dtype=bool)
        fz = Frozen(x=ax, **({} if aw is None else {'w': aw}),
                    **({} if am is None else {'m': am}))
        for s in SPECS:
            want = expect(s, x, w, m)
            if want is None:
                continue
            with np.errstate(all='ignore'):
                got = call(s, ax, aw, am)
            compare(s, got, want, f'{s.name} of {px} weight {pw} mask {m}')
        fz.check('reduction')
    return (tuple(x), m and tuple(m), w and tuple(w))


def mat_body(ch):
    """A matrix is reduced row by row."""
    nr = ch.pick([1, 2, 3], 'rows')
    nc = ch.pick([0, 1, 2, 3], 'columns')
    base = [[3., 1., 0.], [-2.5, 8., 1.], [4., 0.5, 9.]]
    x = [r[:nc] for r in base[:nr]]
    wm = ch.pick(['none', 'w'], 'weight')
    w = None if wm == 'none' else [[1., 2., .5][i:nc] + [3.] * min(i, nc)
                                   for i in range(nr)]
    if w is not None:
        w = [(r + [1., 1., 1.])[:nc] for r in w]
    m = None
    if ch.flag('masked'):
        m = [[ch.flag(f'm{i}{j}') for j in range(nc)] for i in range(nr)]
    form = ch.pick(['array', 'list', 'int', 'F'], 'form')
    if form == 'int' and any(v != int(v) for r in x for v in r):
        x = [[float(int(v)) + 10 * j for j, v in enumerate(r)] for r in x]
    ax = np.array(x).reshape(nr, nc)
    if form == 'list':
        ax = x
    elif form == 'int':
        ax = ax.astype(int)
    elif form == 'F':
        ax = np.asfortranarray(ax)
    aw = None if w is None else np.array(w).reshape(nr, nc)
    am = None if m is None else np.array(m, dtype=bool).reshape(nr, nc)
    if form == 'list' and m is not None:
        am = m
    for s in SPECS:
        wants = [expect(s, x[i], None if w is None else w[i],
                        None if m is None else m[i]) for i in range(nr)]
        if any(v is None for v in wants):
            continue
        got = np.asarray(call(s, ax, aw, am))
        need(got.shape[:1] == (nr,), '%s: shape %s for %d rows', s.name,
             got.shape, nr)
        for i in range(nr):
            compare(s, got[i], wants[i], f'{s.name} row {i} of {x} {w} {m}')
    return (nr, nc, wm, str(m), form)


def reject_body(ch):
    s = ch.pick(SPECS, 'reduction')
    bad = ch.pick(['0d', '3d', 'weight', 'mask'], 'bad')
    x = np.arange(4.).reshape(2, 2)
    o = outcome(s.mk(), {'0d': 1., '3d': np.ones((2, 2, 2))}.get(bad, x),
                weight=np.ones(2) if bad == 'weight' else None,
                mask=np.array([True, False]) if bad == 'mask' else None)
    need(o[0] == 'err', '%s: %s accepted', s.name, bad)
    return (s.name, bad)


def spec_body(ch):
    """Reductions by name."""
    spec = ch.pick([
        ('count', R.Count, 'count'), ('cnt', R.Count, 'cnt'),
        ('sum', R.Sum, 'sum'), ('mean', R.Mean, 'mean'),
        ('std', R.StdDev, 'std'), ('sd', R.StdDev, 'sd'),
        ('std_dev', R.StdDev, 'std_dev'), ('quantile', R.Quantile,
                                           'quantile'),
        ('qs', R.Quantile, 'qs'), ('median', R.Median, 'median'),
        ('errorbar', R.Errorbar, 'errorbar')], 'name')
    name, cls, key = spec
    form = ch.pick(['str', 'tuple', 'object', 'list', 'repeated',
                    'generator'], 'form')
    kw = ch.pick([{}, {'empty_fill': 4.}], 'options')
    if form == 'str':
        items = list(R.predefined.iter(name))
        kw = {}
    elif form == 'tuple':
        items = list(R.predefined.iter((name, kw)))
    elif form == 'object':
        obj = cls(**kw)
        items = list(R.predefined.iter(obj))
        need(items[0][1] is obj, 'object replaced')
        key = cls.key
    elif form in ('repeated', 'generator'):
        reqs = [(name, kw), (name, {}), name]
        items = list(R.predefined.iter(reqs if form == 'repeated'
                                       else (r for r in reqs)))
        need([k for k, _ in items] == [name] * 3, 'repeated: %r', items)
        need(all(type(r) is cls for _, r in items), 'repeated: %r', items)
    else:
        items = list(R.predefined.iter([(name, kw), 'sum', R.Count()]))
        need(len(items) == 3 and [k for k, _ in items[1:]] == ['sum',
                                                               'count'],
             'list of specifications')
        need(type(items[1][1]) is R.Sum and type(items[2][1]) is R.Count,
             'list of specifications')
    k, r = items[0]
    need(k == key and type(r) is cls, '%r gives %r', name, items[0])
    if kw and cls not in (R.Count, R.Sum):
        e = np.asarray(r(np.zeros(0)))
        need(float(e.ravel()[0]) == 4., 'options ignored: %r', e)
    repr(r)
    return (name, form, str(kw))


def scale_body(ch):
    """Values and weights of unusual magnitude, and selections given in other
    forms."""
    what = ch.pick(['large mean', 'tiny weights', 'huge weights',
                    'int mask', 'list mask', 'int8 values', 'int weights',
                    'close values', 'ties'], 'what')
    n = ch.pick([1, 2, 3, 5, 12], 'n')
    rows = ch.flag('rows')
    x = [(5 * i * i + 3) % 17 + .25 * (i % 3) for i in range(n)]
    w = [1. + (i % 4) for i in range(n)]
    m = None
    if what == 'large mean':
        x = [1e8 + (i * i) % 7 for i in range(n)]
        if ch.flag('no weight'):
            w = None
    elif what == 'tiny weights':
        w = [v * 1e-16 for v in w]
    elif what == 'huge weights':
        w = [v * 1e150 for v in w]
    elif what in ('int mask', 'list mask'):
        m = [(i % 3 != 1) * (1 + i) for i in range(n)]
        w = w if ch.flag('weighted') else None
        if what == 'list mask':
            m = [bool(v) for v in m]
    elif what == 'int8 values':
        x = [100 - 3 * i for i in range(n)]
        w = None
    elif what == 'int weights':
        w = [int(v) for v in w]
    elif what == 'close values':
        x = [1. + 1e-7 * ((i * 3) % n) for i in range(n)]
        w = w if ch.flag('weighted') else None
    elif what == 'ties':
        x = [float(i // 2 + (i % 5)) for i in range(n)]
        w = None
    ax = np.array(x, dtype=np.int8 if what == 'int8 values' else None)
    aw = None if w is None else np.array(w)
    am = m if m is None or what == 'list mask' else np.array(m)
    if rows:
        ax = np.array([ax, ax[::-1]])
        aw = None if aw is None else np.array([aw, aw[::-1]])
        am = None if am is None else np.array([am, am[::-1]]) \
            if what == 'int mask' else [am, am[::-1]]
    for s in SPECS:
        want = expect(s, [float(v) for v in x],
                      None if w is None else [float(v) for v in w], m)
        if want is None:
            continue
        got = np.asarray(call(s, ax, aw, am))
        for g in (got if rows else [got]):
            g = np.asarray(g)
            if isinstance(want, list):
                need(g.shape == (len(want),), '%s: shape %s', s.name, g.shape)
            for a, b in zip(g.ravel().tolist(), want if isinstance(
                    want, list) else [want]):
                if b is not None:
                    close(a, b, f'{s.name} of {what} {x} {w} {m}', rtol=1e-9,
                          atol=1e-30 if what.endswith('weights')
                          and s.name == 'sum' else 1e-9)
    return (what, n, rows, w is None)


def special_body(ch):
    """Selected entries that are not finite reach the result; a weight of
    zero does not remove them."""
    n = ch.pick([1, 2, 3], 'n')
    x = ch.many([1., math.inf, -math.inf, math.nan], n, 'x')
    if all(map(math.isfinite, x)):
        return None
    w = ch.many([1., 0., 2.], n, 'w') if ch.flag('weighted') else None
    rows = ch.flag('rows')
    ax, aw = np.array(x), None if w is None else np.array(w)
    xw = x if w is None else [a * b for a, b in zip(x, w)]
    tot = 0.
    for v in xw:
        tot += v
    masked = ch.flag('all selected by a mask')
    for s in (R.Count(), R.Sum(), R.Mean()):
        with np.errstate(all='ignore'):
            got = s(ax[None] if rows else ax,
                    None if aw is None else aw[None] if rows else aw,
                    None if not masked else np.ones(
                        (1, n) if rows else n, bool))
        want = {'count': n, 'sum': tot}.get(s.key)
        if s.key == 'mean':
            k = n if w is None else sum(w)
            want = tot / k if k else math.nan
        eq(np.asarray(got).ravel(), [want], f'{s.key} of {x} weight {w}')
    if w is None:
        s = SummaryFloatArray1D(ax)
        with np.errstate(all='ignore'):
            eq(s.mean, tot / n, 'summary mean')
        need(s.size == n, 'summary size %r', s.size)
    return (str(x), w and tuple(w), rows, masked)


def zero_weights_body(ch):
    """All weights zero: the count and the sum are still those of the
    selection."""
    n = ch.pick([1, 2, 3], 'n')
    x = np.array([3., -1., 2.][:n])
    w = np.zeros(n)
    eq(R.Count()(x, w), n, 'count of zero weights')
    eq(R.Sum()(x, w), 0., 'sum of zero weights')
    return n


def named_quantiles_body(ch):
    name = ch.pick(sorted(PS), 'name')
    n = ch.pick([1, 2, 5], 'n')
    x = [(7 * i * i) % 11 + .5 * i for i in range(n)]
    close(R.Quantile(name)(x), [rquant(x, p) for p in PS[name]], name)
    srt = sorted(x)
    w = [1. + i for i in range(n)]
    if len(set(srt)) == n:
        for sort in (True, False):
            close(R.Quantile(name, sort=sort)(np.array(srt), np.array(w)),
                  [rquant(srt, p, w) for p in PS[name]], f'{name} weighted')
        close(R.Median(sort=False)(np.array(srt), np.array(w)),
              rquant(srt, .5, w), 'median weighted, sorted')
    return (name, n)


def summary_body(ch):
    n = ch.pick([1, 2, 3, 4], 'n')
    x = ch.many(VALS, n, 'x')
    a = np.array(x)
    s = SummaryFloatArray1D(a)
    for _ in range(2):
        need(s.size == n, 'size')
        close(s.mean, rmean(x, None), 'mean')
        close(s.stddev, rsd(x, None), 'stddev')
        close(s.median, rquant(x, .5), 'median')
        for k in ('1sigma', '2sigma', '3sigma'):
            close(getattr(s, '_' + k), [rquant(x, p) for p in PS[k]], k)
    repr(s)
    k = ch.pick([1, 2], 'rows')
    m = np.array([x, [v * 2 - 1 for v in x]][:k])
    mean, sd = Stack.mean_and_sd(m if ch.flag('array') else m.tolist())
    close(mean, [rmean(c, None) for c in m.T.tolist()], 'stack mean')
    close(sd, [rsd(c, None) for c in m.T.tolist()], 'stack sd')
    mean, sd = Stack.mean_and_sd(1e8 + m)
    close(mean, [1e8 + rmean(c, None) for c in m.T.tolist()], 'stack mean')
    close(sd, [rsd(c, None) for c in m.T.tolist()], 'stack sd', rtol=1e-6,
          atol=1e-6)
    s = SummaryFloatArray1D(1e8 + a)
    close(s.stddev, rsd(x, None), 'stddev', rtol=1e-6, atol=1e-6)
    return (tuple(x), k)


def memory():
    x = np.array([3., -1., 8., .5, 2.])
    w = np.array([1., .5, 2., 1.25, 4.])
    m = np.array([True, True, False, True, True])
    cases = {}
    for name in ('count', 'sum', 'mean', 'sd', 'median', 'errorbar',
                 'quantile'):
        r = R.predefined.create(name)[1]
        cases[name] = (lambda a, b, c, r=r: r(a, b, c), x, w, m)
        cases[name + ' rows'] = (lambda a, b, c, r=r: r(a, b, c),
                                 np.array([x, -x[::-1]]), np.array([w, w + 1]),
                                 np.array([m, m[::-1]]))
    cases['mean and sd'] = (lambda a: Stack.mean_and_sd(a), np.array([x, w]))
    cases['summary'] = (lambda a: [
        (s.size, s.mean, s.stddev, s.median, s._1sigma, s._2sigma, s._3sigma)
        for s in [SummaryFloatArray1D(a)]], x)
    return layout.tree(cases)


def scenarios(tier):
    global NX
    NX = 3 if tier == 'quick' else 4
    return [Tree(f.__name__[:-5], f) for f in (
        vec_body, mat_body, scale_body, special_body, zero_weights_body,
        reject_body, spec_body, named_quantiles_body,
        summary_body)] + [memory()]
