"""Index, mask, chunk and filter utilities."""
import numpy as np
from collections import OrderedDict

from pyhipp.core import DataDict, DataTable
from pyhipp.core.dataproc import Array, Dict, Mask
from pyhipp.core.dataproc.filter import Range
from pyhipp.core.dataproc.iter import Chunks

from .. import layout
from ..engine import Tree
from ..util import need, outcome, eq, Frozen

LEVEL = 'exploration'
RULE = ('every leaf of the choice tree over the stated alphabet; an outcome is '
        'distinct when its (input class, result) fingerprint is new')
ASSUMPTIONS = ['counts/sizes are non-negative', 'index arrays are integer']
BOUNDS = {'quick': 'sequences up to length 4 (counts, masks), 3 arrays',
          'thorough': 'sequences up to length 6'}
N = 4


def offsets_body(ch):
    form = ch.pick(['list', 'i8', 'i4', 'u1', 'tuple', 'u4'], 'form')
    big = 200 if form == 'u1' else 2_000_000_000
    cnt = ch.upto([0, 1, big], 0, N, 'count')
    x = {'list': list, 'tuple': tuple}.get(
        form, lambda c: np.array(c, dtype=form))(cnt)
    fz = Frozen(x=x)
    off = [sum(cnt[:i]) for i in range(len(cnt) + 1)]
    eq(Array.count_to_offset(x), off, 'offsets')
    eq(Array.count_to_offset(x, has_end=False), off[:-1], 'offsets (no end)')
    eq(Array.count_to_offset_pairs(x),
       np.array([[off[i], off[i + 1]] for i in range(len(cnt))],
                dtype=int).reshape(-1, 2), 'offset pairs')
    for o in (Array.count_to_offset(x), Array.count_to_offset_pairs(x),
              Array.count_to_offset(x, has_end=False)):
        need(o.dtype.kind in 'iu', 'offsets of type %s', o.dtype)
    fz.check('count_to_offset')
    return (form, tuple(cnt))


def chunks_body(ch):
    cnt = ch.upto([0, 1, 2, 3], 0, N, 'sizes')
    slack = ch.pick([0, 2, -1], 'sequence slack')
    total = max(sum(cnt) + slack, 0)
    src = ch.pick(['list', 'iter', 'array'], 'sizes as')

    def mk():
        return iter(cnt) if src == 'iter' else (
            np.array(cnt, dtype=int) if src == 'array' else cnt)
    off = [sum(cnt[:i]) for i in range(len(cnt) + 1)]
    pairs = [tuple(int(v) for v in p) for p in Chunks.ranges_by_sizes(mk())]
    need(pairs == list(zip(off[:-1], off[1:])), 'ranges %s, expected %s',
         pairs, off)
    a, b = list(range(total)), np.arange(total) * 10
    c = 'abcdefghijklmnop'[:total]
    got = list(Chunks.slices_by_sizes(mk(), a))
    need(got == [a[x:y] for x, y in pairs], 'slices %s', got)
    got = list(Chunks.slices_by_sizes(mk(), b, a, c))
    need(len(got) == len(cnt), '%d slices, expected %d', len(got), len(cnt))
    for (x, y), g in zip(pairs, got):
        need(type(g) is tuple and len(g) == 3, 'slice of 3 sequences')
        eq(g[0], b[x:y], 'slice')
        need(g[1] == a[x:y] and g[2] == c[x:y], 'slice')
    need(outcome(lambda: list(Chunks.slices_by_sizes(mk())))[0] == 'err',
         'no sequence accepted')
    return (tuple(cnt), total)


def mask_body(ch):
    n = ch.pick(list(range(N + 2)), 'n')
    m = np.array([ch.flag(f'm{i}') for i in range(n)], dtype=bool)
    form = ch.pick(['array', 'list'], 'form')
    x = m if form == 'array' or n == 0 else m.tolist()
    fz = Frozen(m=m)
    idx = Mask.bool_to_idx(x)
    eq(idx, np.array([i for i in range(n) if m[i]], dtype=int), 'bool_to_idx')
    back = Mask.idx_to_bool(n, idx)
    eq(back, m, 'round trip', dtype=True)
    if len(idx):
        eq(Mask.idx_to_bool(n + 2, list(idx[::-1]) + [idx[0]]),
           np.concatenate([m, [False, False]]), 'idx_to_bool')
        far = list(idx[::-1] - n - 2)
        eq(Mask.idx_to_bool(n + 2, far), np.concatenate([m, [False, False]]),
           'idx_to_bool from the end')
        for bad in (n, -n - 1):
            o = outcome(Mask.idx_to_bool, n, [int(idx[0]), bad])
            need(o[0] == 'err' and isinstance(o[1], IndexError),
                 'index %d of %d: %r', bad, n, o[1])
    need(outcome(lambda: Mask.bool_to_idx(np.ones((2, 2), bool)))[0] == 'err',
         '2-D mask accepted')
    need(outcome(lambda: Mask.idx_to_bool(4, np.ones((2, 2), int)))[0] ==
         'err', '2-D index accepted')
    # applying a mask
    a = np.arange(n) + 10
    b = np.arange(2. * n).reshape(n, 2)
    cp = ch.pick([False, True, None], 'copy')
    kw = {} if cp is None else {'copy': cp}
    eq(Mask.on_array(m, a, **kw), a[m], 'on_array')
    r = Mask.on_arrays(m, a, **kw)
    eq(r, a[m], 'on_arrays(1)')
    r = Mask.on_arrays(m, a, b, a, **kw)
    need(type(r) is tuple and len(r) == 3, 'on_arrays shape')
    eq(r[0], a[m], 'on_arrays')
    eq(r[1], b[m], 'on_arrays')
    eq(r[2], a[m], 'on_arrays')
    kind = ch.pick([dict, OrderedDict, DataDict, DataTable], 'mapping')
    d = kind({'x': a, 'y': b})
    e = Mask.on_dict(d, m, **kw)
    need(type(e) is kind and list(e) == ['x', 'y'], 'on_dict type/keys')
    eq(e['x'], a[m], 'on_dict')
    eq(e['y'], b[m], 'on_dict')
    eq(d['x'], a, 'on_dict source')
    # slices: copy decides sharing
    sl = slice(0, 2)
    s = [Mask.on_array(sl, a, **kw), Mask.on_arrays(sl, a, **kw),
         *Mask.on_arrays(sl, a, a, **kw),
         Mask.on_dict(kind({'x': a}) if kind is not DataTable else {'x': a},
                      sl, **kw)['x']]
    for x in s:
        eq(x, a[:2], 'slice')
        if n:
            need(np.shares_memory(x, a) == (not cp), 'copy=%s memory', cp)
    fz.check('mask helpers')
    return (n, tuple(m.tolist()), cp, kind.__name__)


def put_body(ch):
    n = ch.pick([0, 1, 2, 3, 4], 'n')
    m = np.array([ch.flag(f'm{i}') for i in range(n)], dtype=bool)
    src = ch.pick(['same', 'scalar', 'one'], 'src')
    dst = np.arange(n, dtype=float)
    x = {'same': np.arange(n) + 100., 'scalar': 7., 'one': np.array([8.])}[src]
    want = np.array([(x[i] if src == 'same' else float(np.ravel(x)[0]))
                     if m[i] else float(i) for i in range(n)])
    fz = Frozen(m=m, **({'x': x} if src != 'scalar' else {}))
    need(Mask.put(dst, x, m) is None, 'put works in place')
    eq(dst, want, 'put')
    fz.check('put')
    return (src, tuple(m.tolist()))


def zip_body(ch):
    n, k = ch.pick([1, 2, 3], 'n'), ch.pick([1, 2, 3], 'k')
    if n * k > 6:
        n = 2
    ms = [np.array([ch.flag(f'm{j}{i}') for i in range(n)]) for j in range(k)]
    dflt = ch.pick([None, -5, 0, 2.5, 'array'], 'default')
    arrs = [np.arange(n) + 10 * (j + 1) for j in range(k)]
    want = []
    for i in range(n):
        v = 0 if dflt is None else -i if dflt == 'array' else dflt
        for j in range(k):
            if ms[j][i]:
                v = arrs[j][i]
                break
        want.append(v)
    got = Mask.zip(ms, arrs) if dflt is None else \
        Mask.zip(ms, arrs, default=-np.arange(n) if dflt == 'array'
                 else dflt)
    eq(np.asarray(got, dtype=float), np.asarray(want, dtype=float), 'zip')
    return (n, k, dflt, tuple(want))


def range_body(ch):
    vals = [-1., 0., .5, 1., 2., float('nan'), float('inf'), -float('inf')]
    x = ch.upto(vals, 0, 3, 'x')
    lo = ch.pick([None, 0., .5, -float('inf')], 'lo')
    hi = ch.pick([None, 1., 0., float('inf')], 'hi')
    form = ch.pick(['list', 'array', '2d'], 'form')
    a = np.array(x) if form != 'list' else x
    if form == '2d':
        a = np.array([x, x])
        flat = x + x
    else:
        flat = x
    fz = Frozen(a=a)
    want = [v for v in flat if (lo is None or v >= lo) and
            (hi is None or v < hi)]
    eq(Range(min=lo, max=hi)(a), np.array(want, dtype=float), 'Range')
    fz.check('Range')
    xi = np.array([int(v) for v in x if np.isfinite(v)], dtype=int)
    eq(Range(lo, hi)(xi), [v for v in xi.tolist() if (lo is None or v >= lo)
                           and (hi is None or v < hi)], 'Range on integers')
    return (tuple(map(str, x)), lo, hi, form)


def dict_body(ch):
    ds = ch.upto([None, {}, {'a': 1}, {'b': 2, 'a': 3}, {'c': None}], 0, 3,
                 'dicts')
    items = ch.pick([{}, {'a': 9}, {'z': 0}], 'items')
    snap = [None if d is None else dict(d) for d in ds]
    want = {}
    for d in ds:
        for k, v in (d or {}).items():
            want[k] = v
    want.update(items)
    got = Dict.combine_dicts(*ds, **items)
    need(got == want and list(got) == list(want), 'combine %s, expected %s',
         got, want)
    need(Dict(*ds, **items).d == want, 'Dict(...).d')
    got['new'] = 1
    need([None if d is None else dict(d) for d in ds] == snap,
         'combine modified an operand')
    for d in ds:
        e = Dict.none_to_empty(d)
        need(e == {} if d is None else e is d, 'none_to_empty')
    need(Dict.none_to_empty() == {}, 'none_to_empty()')
    Dict.none_to_empty()['k'] = 1
    need(Dict.none_to_empty() == {}, 'none_to_empty shares its result')
    return (str(ds), str(items))


def as_array_body(ch):
    xs = ch.upto([None, [1, 2], 3., 'arr', ((1,), (2,))], 1, 3, 'args')
    cp = ch.pick([None, True, False], 'copy')
    arr = np.arange(3)
    args = [arr if isinstance(x, str) else x for x in xs]
    kw = {} if cp is None else {'copy': cp}
    out = Array.as_array(*args, **kw)
    outs = (out,) if len(args) == 1 else out
    need(len(args) == 1 or (type(out) is tuple and len(out) == len(args)),
         'as_array shape')
    for x, o in zip(args, outs):
        if x is None:
            need(o is None, 'None must stay None')
        else:
            need(isinstance(o, np.ndarray), 'as_array gives arrays')
            eq(o, x, 'as_array')
            if x is arr:
                need(np.shares_memory(o, arr) == (cp is False),
                     'as_array(copy=%s) memory', cp)
    need(outcome(Array.as_array)[0] == 'err', 'no argument accepted')
    return (str(xs), cp)


def memory():
    m = np.array([True, False, True, True, False, True])
    a, b = np.arange(6.), np.arange(12).reshape(6, 2)
    return layout.tree({
        'on_array': (Mask.on_array, m, a), 'on_array 2': (Mask.on_array, m, b),
        'on_arrays': (Mask.on_arrays, m, a, b),
        'bool_to_idx': (Mask.bool_to_idx, m),
        'idx_to_bool': (lambda i: Mask.idx_to_bool(9, i), np.array([4, 1])),
        'zip': (lambda m_, x, y: Mask.zip([m_, ~m_], [x, y]), m, a, -a),
        'range': (Range(1., 4.), a), 'range 2': (Range(1, 8), b),
        'as_array': (lambda x: Array.as_array(x), b),
        'offsets': (Array.count_to_offset, np.array([3, 0, 2])),
        'pairs': (Array.count_to_offset_pairs, np.array([3, 0, 2])),
        'chunks': (lambda s, x: list(Chunks.slices_by_sizes(s, x)),
                   np.array([2, 0, 3]), b),
    })


def scenarios(tier):
    global N
    N = 4 if tier == 'quick' else 6
    return [Tree(f.__name__[:-5], f) for f in (
        offsets_body, chunks_body, mask_body, put_body, zip_body, range_body,
        dict_body, as_array_body)] + [memory()]
