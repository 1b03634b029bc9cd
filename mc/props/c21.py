"""Histograms: bin specifications, overlapping bins, accumulated bins."""
import bisect
import itertools
import math

import numpy as np

from pyhipp.core import DataDict
from pyhipp.stats import BiSearchBins, EqualSpaceBins
from pyhipp.stats.binning import Bin, BinnedData, Hist1D

from .. import layout
from ..engine import Bfs, System, Tree
from ..util import need, outcome, eq, close, Frozen

LEVEL = 'model_checking'
ASSUMPTIONS = ['finite data', 'weights have the shape of the bin content']
BOUNDS = {'quick': 'fill histories of depth 3 over 5 accumulators; all bin '
                   'specifications of the alphabets with up to 4 bins x 1-4 '
                   'sub-bins', 'thorough': 'depth 4'}


def edges_body(ch):
    n = ch.pick([2, 3, 4], 'edges')
    e = sorted(ch.many([0., 1., 1.5, 4.], n, 'e'))
    form = ch.pick(['array', 'list'], 'form')
    x = np.array(e) if form == 'array' else e
    fz = Frozen(x=x) if form == 'array' else None
    for s in range(1, n):
        close(Bin.edges_to_centers(x, s) if s > 1 else
              Bin.edges_to_centers(x),
              [.5 * (e[i] + e[i + s]) for i in range(n - s)], 'centers')
        close(Bin.edges_to_widths(x, s) if s > 1 else Bin.edges_to_widths(x),
              [e[i + s] - e[i] for i in range(n - s)], 'widths')
    k = ch.pick([1, 2, 3, 5], 'sub_bins')
    got = Bin.insert_sub_bins_into_edges(x, k)
    want = [e[i] + (e[i + 1] - e[i]) * j / k for i in range(n - 1)
            for j in range(k)] + [e[-1]]
    close(got, want, 'refined edges')
    need(float(got[0]) == e[0] and float(got[-1]) == e[-1], 'end points')
    b, sb, rng = Bin.parse_sub_bin_spec(x, k)
    close(b, want, 'refined bins')
    need(sb == k and tuple(map(float, rng)) == (e[0], e[-1]), 'range %r',
         rng)
    need(outcome(Bin.parse_sub_bin_spec, x, k, range=(0, 1))[0] == 'err',
         'edges with a range accepted')
    need(outcome(Bin.parse_sub_bin_spec, x, 0)[0] == 'err', '0 sub-bins')
    if k == 1:
        close(Bin.insert_sub_bins_into_edges(x), e, 'edges by default')
        b, sb, rng = Bin.parse_sub_bin_spec(x)
        close(b, e, 'edges by default')
        need(sb == 1, 'sub-bins by default')
        b, sb, rng = Bin.parse_sub_bin_spec(range=(e[0], 9.))
        need(b == 10 and sb == 1, 'bins by default')
        b, sb, rng = Bin.parse_sub_bin_spec(n, range=(e[0], 9.))
        need(b == n and sb == 1, 'sub-bins by default')
    b, sb, rng = Bin.parse_sub_bin_spec(n, k, range=(e[0], 9.))
    need(b == n * k and sb == k and tuple(rng) == (e[0], 9.), 'scalar bins')
    b, sb, rng = Bin.parse_sub_bin_spec(np.int64(n), k, range=(e[0], 9.))
    need(b == n * k and sb == k and tuple(rng) == (e[0], 9.), 'scalar bins')
    need(outcome(Bin.parse_sub_bin_spec, n, k)[0] == 'err',
         'scalar bins without range')
    if fz:
        fz.check('bin edges')
    return (tuple(e), form, k)


def combine_body(ch):
    n = ch.pick([1, 2, 3, 4, 5], 'n')
    c = ch.pick([0, 1, 2, 3, 5, 6], 'n_comb')
    form = ch.pick(['int', 'float', '2d', 'list', 'u1', 'mixed', 'bigint'],
                   'form')
    x = [(3 * i * i + 1) % 7 for i in range(n)]
    a = {'int': np.array(x), 'float': np.array(x) * .5,
         '2d': np.array([[v, -v] for v in x]), 'list': x,
         'u1': np.array(x, dtype='u1'),
         'mixed': np.array([[2.**60, .5, 1., 2.**-20, 3.][i]
                            for i in range(n)]),
         'bigint': np.array([2**60 + v for v in x]) // 8}[form]
    fz = Frozen(a=np.asarray(a) if form == 'list' else a)
    o = outcome(Bin.combine_adjacent_bins, a, c)
    if c < 1 or c > n:
        need(o[0] == 'err', 'n_comb=%d of %d accepted', c, n)
    else:
        want = [np.sum(np.asarray(a)[i:i + c], axis=0)
                for i in range(n - c + 1)]
        if form == 'mixed':
            close(o[1], np.array([math.fsum(a[i:i + c])
                                  for i in range(n - c + 1)]),
                  'combined bins', rtol=1e-12, atol=0)
        else:
            eq(o[1], np.array(want), 'combined bins')
            need(form == 'u1' or np.asarray(o[1]).dtype.kind == np.asarray(
                a).dtype.kind, 'counts of integers are integers')
        if form != 'list':
            need(not np.shares_memory(o[1], a), 'result aliases the input')
    fz.check('combine_adjacent_bins')
    return (n, c, form)


def prange_body(ch):
    x = ch.upto([0., 2., 7., -1.], 1, 4, 'x')
    rg = ch.pick([None, (0., 5.), (-3., 1.), (-9., 9.)], 'range')
    pr = ch.pick([None, (0., 1.), (.25, .75), (.1, .5)], 'p_range')
    form = ch.pick(['array', 'list'], 'form')
    a = np.array(x) if form == 'array' else x
    lo, hi = Bin.parse_p_range_spec(a, rg, pr)

    def q(p):
        s = sorted(x)
        h = p * (len(s) - 1)
        i = min(int(h), len(s) - 1)
        j = min(i + 1, len(s) - 1)
        return s[i] + (h - i) * (s[j] - s[i])
    if pr is None:
        want = (min(x), max(x)) if rg is None else rg
    else:
        want = (q(pr[0]), q(pr[1]))
        if rg is not None:
            want = (max(want[0], rg[0]), min(want[1], rg[1]))
    close([lo, hi], want, 'range')
    if rg is not None:
        close(Bin.parse_p_range_spec(None, rg), rg, 'range without data')
        need(outcome(Bin.parse_p_range_spec, None, rg, (0, 1))[0] == 'err',
             'p_range without data')
    else:
        need(outcome(Bin.parse_p_range_spec)[0] == 'err', 'nothing given')
    return (tuple(x), rg, pr, form)


def overlap_body(ch):
    x = ch.upto([0., .3, .5, 1., 1.7, 2., -1., 5.], 0, 3, 'x')
    bins, sub = ch.pick([(1, 1), (4, 1), (4, 2), (4, 4), (8, 3), (2, 2)],
                        'bins,sub')
    lo, hi = ch.pick([(0., 2.), (.3, 1.7), (-1., 5.)], 'range')
    w = [1.5, -2., .25][:len(x)] if ch.flag('weighted') else None
    d = Hist1D.from_overlapped_bins(
        np.array(x), bins, sub, (lo, hi),
        weights=None if w is None else np.array(w))
    need(isinstance(d, DataDict), 'result type')
    e = [lo + (hi - lo) * i / bins for i in range(bins + 1)]
    close(d['sub_e'], e, 'sub-bin edges')
    ed = np.asarray(d['sub_e']).tolist()
    h = [0.] * bins
    for i, v in enumerate(x):
        if lo <= v <= hi:
            k = min(bisect.bisect_right(ed, v) - 1, bins - 1)
            h[k] += 1 if w is None else w[i]
    close(d['sub_h'], h, 'sub-bin counts')
    n = bins - sub + 1
    close(d['h'], [math.fsum(h[i:i + sub]) for i in range(n)], 'counts')
    close(d['x'], [.5 * (e[i] + e[i + sub]) for i in range(n)], 'centers')
    close(d['dx'], [e[i + sub] - e[i] for i in range(n)], 'widths')
    return (tuple(x), bins, sub, lo, hi, w is None)


class Fill(System):
    """A binned accumulator holds the sum of everything added to it."""

    KINDS = {
        'default': lambda: BinnedData(),
        'equal': lambda: BinnedData(EqualSpaceBins((0., 2.), 4)),
        'int': lambda: BinnedData(EqualSpaceBins((-1., 1.), 2), dtype=int),
        'edges': lambda: BinnedData(BiSearchBins([3., 0., .5, .75])),
        'vec': lambda: BinnedData(EqualSpaceBins((0., 2.), 2), shape=(2,)),
    }
    EDGES = {'default': [i / 10 for i in range(11)],
             'equal': [0., .5, 1., 1.5, 2.], 'int': [-1., 0., 1.],
             'edges': [0., .5, .75, 3.], 'vec': [0., 1., 2.]}
    DATA = {'none': [], 'in': [.05, .55, .55], 'edge': [0., .5, 1.],
            'out': [-.001, 2., -50., 3., 1e9], 'mix': [.95, -2., .15, 7.],
            'top': [1.999, .999]}

    @staticmethod
    def inits():
        return sorted(Fill.KINDS)

    def __init__(self, init):
        self.kind = init
        self.b = self.KINDS[init]()
        # other accumulator of the same kind: must stay empty
        self.other = self.KINDS[init]()
        self.e = self.EDGES[init]
        sh = (2,) if init == 'vec' else ()
        self.m = np.zeros((len(self.e) - 1,) + sh)

    def canon(self):
        return (self.kind, tuple(self.m.ravel().tolist()))

    def ops(self):
        return [(k, w) for k in self.DATA for w in (0, 1, 2)]

    def apply(self, op):
        x = self.DATA[op[0]]
        a = np.array(x, dtype=float)
        n = len(x)
        if op[1] == 0:
            w = None
        else:
            w = np.arange(1, n + 1) * (1 if op[1] == 1 else -2)
            if self.kind != 'int':
                w = w * .5
            if self.kind == 'vec':
                w = np.stack([w, w + 1.], axis=-1).reshape(n, 2)
        fz = Frozen(a=a, **({} if w is None else {'w': w}))
        self.b.add(a, w) if w is not None else self.b.add(a)
        for i, v in enumerate(x):
            k = bisect.bisect_right(self.e, v) - 1
            if 0 <= k < len(self.m):
                self.m[k] += 1 if w is None else w[i]
        fz.check('add')
        close(self.b.data, self.m, 'binned data')
        need(not np.any(self.other.data), 'another accumulator changed')
        repr(self.b)


def warm():
    for k in Fill.KINDS:
        s = Fill(k)
        for op in (('in', 0), ('in', 1)):
            s.apply(op)


def many_body(ch):
    """Many entries with repeated values, in one or several calls, with or
    without weights, into every kind of accumulator; entries that are not
    numbers or infinite are in no bin and keep their weights aligned."""
    n = ch.pick([9, 21, 40, 200], 'n')
    kind = ch.pick(sorted(Fill.KINDS), 'kind')
    how = ch.pick(['repeated', 'constant', 'infinite', 'ascending',
                   'descending'], 'data')
    x = [((7 * i * i) % 23) / 8 - .4375 for i in range(n)]
    if how == 'constant':
        x = [.3125] * n
    elif how == 'infinite':
        x = [math.inf if i % 5 == 1 else -math.inf if i % 7 == 3 else v
             for i, v in enumerate(x)]
    elif how != 'repeated':
        x.sort(reverse=how == 'descending')
    wt = ch.pick(['none', 'array', 'int', 'list'], 'weights')
    w = None
    if wt != 'none':
        w = np.array([(1 + i % 5) * (1 if wt == 'int' or kind == 'int'
                                     else .25) for i in range(n)])
        if wt == 'int':
            w = w.astype(int)
        if kind == 'vec':
            w = np.stack([w, 2 * w], -1)
    calls = ch.pick([1, 2], 'calls')
    s = Fill(kind)
    for j in range(calls):
        a = np.array(x[j::calls])
        b = None if w is None else w[j::calls]
        with np.errstate(all='ignore'):
            if how == 'infinite' and kind != 'edges':
                o = outcome(s.b.add, a) if b is None else outcome(
                    s.b.add, a, b)
                need(o[0] == 'ok', 'add: %r', o[1])
            else:
                s.b.add(a) if b is None else s.b.add(a, b)
    for i, v in enumerate(x):
        k = bisect.bisect_right(s.e, v) - 1
        if 0 <= k < len(s.m):
            s.m[k] += 1 if w is None else w[i]
    close(s.b.data, s.m, f'{n} entries')
    need(s.b.data.dtype == (int if kind == 'int' else float), 'dtype %s',
         s.b.data.dtype)
    lo, hi = -.5, 2.5
    xs = [v for v in x if math.isfinite(v)]
    ws = None if w is None or kind == 'vec' else [
        float(w[i]) for i, v in enumerate(x) if math.isfinite(v)]
    if kind != 'default':
        return (n, kind, how, wt, calls)
    for bins in (4, [-.5, .25, 1., 1.75, 2.5]):
        d = Hist1D.from_overlapped_bins(
            np.array(xs), bins, 2, (lo, hi), weights=None if ws is None
            else np.array(ws))
        e = [-.5, .25, 1., 1.75, 2.5]
        h = [0.] * 4
        for i, v in enumerate(xs):
            if lo <= v <= hi:
                h[min(bisect.bisect_right(e, v) - 1, 3)] += \
                    1 if ws is None else ws[i]
        close(d['sub_h'], h, 'sub-bin counts')
        close(d['h'], [h[i] + h[i + 1] for i in range(3)], 'counts')
        close(d['sub_e'], e, 'sub-bin edges')
        close(d['x'], e[1:-1], 'centers')
        close(d['dx'], [1.5] * 3, 'widths')
        if ws is None:
            need(np.asarray(d['h']).dtype.kind in 'iu', 'counts are integers')
    return (n, kind, how, wt, calls)


def dtype_body(ch):
    """An accumulator keeps its type and its shape."""
    dt = ch.pick(['f8', 'f4', 'i8', 'i4', 'i2', 'u1'], 'dtype')
    # numba has no += of an int to rows of the narrower types
    shape = ch.pick([(), (1,), (2,), (2, 3)] if dt in ('f8', 'i8') else [()],
                    'shape')
    h = BinnedData(EqualSpaceBins((0., 4.), 4), dtype=dt, shape=shape)
    need(h.data.shape == (4,) + shape and h.data.dtype == dt, 'initial %s %s',
         h.data.shape, h.data.dtype)
    m = np.zeros((4,) + shape, dt)
    for i in range(3):
        x = np.array([.5, 3.5, 3.25, 9., .5, -1.])
        if ch.flag('weighted'):
            w = np.arange(6 * int(np.prod(shape, dtype=int))).reshape(
                (6,) + shape).astype(dt)
            h.add(x, w)
            m[0] += w[0] + w[4]
            m[3] += w[1] + w[2]
        else:
            h.add(x)
            m[0] += 2
            m[3] += 2
        eq(h.data, m, 'data', dtype=True)
    return (dt, shape, m.sum())


def memory():
    e = np.array([0., 1., 2.5, 7.])
    x = np.array([-1., 0., .5, 2.5, 6.9, 7., 9.])
    w = np.array([1., .5, 2., 1.25, 4., 8., 16.])

    def fill(e_, x_, w_=None):
        h = BinnedData(BiSearchBins(e_))
        h.add(x_, w_)
        return h.data
    return layout.tree({
        'fill': (fill, e, x), 'fill weighted': (fill, e, x, w),
        'overlapped': (lambda e_, x_, w_: Hist1D.from_overlapped_bins(
            x_, bins=e_, sub_bins=2, range=None, weights=w_), e, x, w),
        'combine': (lambda x_: Bin.combine_adjacent_bins(x_, 3), x),
        'centers': (lambda e_: Bin.edges_to_centers(e_), e),
        'widths': (lambda e_: Bin.edges_to_widths(e_, 2), e),
        'insert': (lambda e_: Bin.insert_sub_bins_into_edges(e_, 3), e),
        'range': (lambda x_: Bin.parse_p_range_spec(x_, None, (.1, .9)), x),
    })


def scenarios(tier):
    return [Tree(f.__name__[:-5], f) for f in (
        edges_body, combine_body, prange_body, overlap_body, many_body,
        dtype_body)] + [memory(), 
        Bfs('fill', Fill, 3 if tier == 'quick' else 4)]
