"""Array, shape and dtype wrappers."""
import numpy as np

from pyhipp.core.arrays import (Array, IntArray, BoolArray, Shape,
                                FlatIndexArray, IndexArray, DType)

from ..engine import Tree
from ..util import need, outcome, eq, Frozen

LEVEL = 'exploration'
RULE = ('every array of the shape x value x dtype alphabet through every '
        'operation of the wrapper; distinct by the case')
ASSUMPTIONS = []
BOUNDS = {'quick': 'shapes of up to 3 dimensions, values from a 3-value '
                   'alphabet with ties (up to 4 free entries)',
          'thorough': 'up to 6 free entries'}
NFREE = 4
SHAPES = [(0,), (1,), (3,), (4,), (2, 2), (2, 3), (0, 2), (1, 1, 3),
          (2, 1, 2)]


def arr_body(ch):
    sh = ch.pick(SHAPES, 'shape')
    n = int(np.prod(sh))
    k = min(n, NFREE)
    vals = ch.many([0, 2, 1], k, 'v') + [3, 1, 2][:n - k]
    a = np.array(vals + [1] * (n - len(vals)), dtype=float).reshape(sh)
    dt = ch.pick([None, 'i4', DType('f4'), np.int64], 'dtype')
    form = ch.pick(['array', 'list', 'wrapped', 'nocopy'], 'form')
    lay = ch.pick(['C', 'F', 'strided'] if len(sh) > 1 and n else ['C'],
                  'layout')
    if lay == 'F':
        a = np.asfortranarray(a)
    elif lay == 'strided':
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    fz = Frozen(a=a)
    npdt = None if dt is None else (dt._impl if isinstance(dt, DType) else
                                    np.dtype(dt))
    src = {'array': a, 'list': a.tolist(), 'wrapped': Array(a),
           'nocopy': a}[form]
    if form == 'list' and n == 0:
        src = a
    x = Array(src, dtype=dt, copy=False) if form == 'nocopy' else \
        Array(src, dtype=dt)
    if form != 'nocopy':
        eq(Array(src, dtype=dt, copy=True)._impl, x._impl, 'copy=True')
    want = a if npdt is None else a.astype(npdt)
    eq(x._impl, want, 'contents', dtype=True)
    need(np.shares_memory(x._impl, a) == (
        form == 'nocopy' and npdt is None and n > 0), 'sharing (%s)', form)
    need(x.n_dims == len(sh) and x.size == n, 'n_dims/size')
    if sh:
        need(len(x) == sh[0], 'len')
    s = x.shape
    need(isinstance(s, Shape) and tuple(s._impl.tolist()) == sh and
         len(s) == len(sh), 'shape %r', s)
    need(isinstance(x.dtype, DType) and x.dtype._impl == want.dtype, 'dtype')
    c = x.copied()
    eq(c._impl, want, 'copied', dtype=True)
    need(not np.shares_memory(c._impl, x._impl), 'copied shares memory')
    f = x.flatten()
    eq(f._impl, want.ravel(), 'flatten', dtype=True)
    need(not np.shares_memory(f._impl, x._impl), 'flatten shares memory')
    eq(x.sorted()._impl, np.sort(want, axis=None), 'sorted')
    eq(want.ravel()[x.argsort()._impl], np.sort(want, axis=None), 'argsort')
    for cp in (True, False):
        f = x.flatten(copy=cp)
        eq(f._impl, want.ravel(), 'flatten', dtype=True)
        # a flat view exists only where the elements are in order
        one = x._impl.flags.c_contiguous
        need(n == 0 or np.shares_memory(f._impl, x._impl) == (
            one and not cp), 'flatten(copy=%s) sharing', cp)
    for ax in [None] + list(range(len(sh))):
        so = x.sorted(axis=ax, kind='stable')
        eq(so._impl, np.sort(want, axis=ax, kind='stable'), 'sorted')
        ar = x.argsort(axis=ax, kind='stable')
        eq(ar._impl, np.argsort(want, axis=ax, kind='stable'), 'argsort')
        if ax is None:
            need(isinstance(ar, FlatIndexArray) and ar.n_indexed == n,
                 'argsort: %r of %r items', type(ar), ar.n_indexed)
            eq(want.ravel()[ar._impl], np.sort(want, axis=None),
               'argsort orders')
        else:
            need(isinstance(ar, IntArray), 'argsort type')
    eq(x._impl, want, 'contents afterwards')
    r = x.to_simple_repr()
    need(r['n_dims'] == len(sh) and r['shape'] == sh and
         r['dtype'] == str(want.dtype), 'repr %r', r)
    repr(x)
    fz.check('Array')
    return (sh, tuple(vals), str(dt), form, lay)


def make_body(ch):
    cls = ch.pick([Array, IntArray, BoolArray], 'class')
    sh = ch.pick([0, 3, (2,), (2, 0), (2, 3), [1, 2], 's(2,2)', np.int64(2),
                  np.int32(0)], 'shape')
    dt = ch.pick([None, 'i4', 'f8', 'bool', DType('i8'), np.dtype('f4')],
                 'dtype')
    which = ch.pick(['zeros', 'ones'], 'which')
    shape = Shape([2, 2]) if sh == 's(2,2)' else sh
    t = (sh,) if np.isscalar(sh) and sh != 's(2,2)' else (
        (2, 2) if sh == 's(2,2)' else tuple(sh))
    x = getattr(cls, which)(shape, dtype=dt)
    npdt = np.dtype('f8') if dt is None else (
        dt._impl if isinstance(dt, DType) else np.dtype(dt))
    need(type(x) is cls, 'type %s', type(x))
    if dt is None:
        eq(getattr(cls, which)(shape)._impl, x._impl, which, dtype=True)
    eq(x._impl, np.full(t, which == 'ones', dtype=npdt), which, dtype=True)
    return (cls.__name__, str(sh), str(dt), which)


def index_body(ch):
    n = ch.pick([0, 1, 2, 3], 'rows')
    m = ch.pick([1, 2, 3], 'columns')
    sh = ch.pick([(2,), (2, 3), (4, 5, 6)], 'indexed shape')
    idx = np.arange(n * m).reshape(n, m)
    o = outcome(IndexArray, sh, idx)
    if m == len(sh):
        need(o[0] == 'ok', 'IndexArray: %r', o[1])
        eq(o[1]._impl, idx, 'indices')
        need(isinstance(o[1].shape_indexed, Shape), 'shape_indexed')
        eq(o[1].shape_indexed._impl, sh, 'shape_indexed')
    else:
        need(o[0] == 'err', 'IndexArray of %d columns into %d dimensions', m,
             len(sh))
    need(outcome(IndexArray, sh, idx.ravel())[0] == 'err', '1-d IndexArray')
    x = FlatIndexArray(7, idx.ravel())
    need(x.n_indexed == 7 and len(x) == n * m, 'FlatIndexArray')
    need(outcome(FlatIndexArray, 7, idx)[0] == 'err', '2-d FlatIndexArray')
    need(outcome(Shape, idx)[0] == 'err', '2-d Shape')
    # storage options reach the wrapped array
    flat = idx.ravel()
    for mk, src in ((lambda **k: Shape(flat, **k), flat),
                    (lambda **k: FlatIndexArray(7, flat, **k), flat),
                    (lambda **k: IndexArray((2,) * m, idx, **k), idx)):
        for kw in ({}, {'copy': True}, {'copy': False}, {'dtype': 'i4'},
                   {'dtype': DType('i4'), 'copy': False}):
            x = mk(**kw)
            eq(x._impl, src.astype(kw.get('dtype') and 'i4' or src.dtype),
               'indices', dtype=True)
            need(src.size == 0 or np.shares_memory(x._impl, src) ==
                 (kw == {'copy': False}), 'sharing with %r', kw)
    return (n, m, sh)


def dtype_body(ch):
    d = ch.pick(['i4', 'f8', '>f4', 'u1', 'S3', 'bool', 'c16'], 'dtype')
    form = ch.pick(['str', 'np', 'wrapped', 'type'], 'form')
    ref = np.dtype(d)
    x = DType({'str': d, 'np': ref, 'wrapped': DType(d),
               'type': ref.type if ref.isnative and d != 'S3' else d}[form])
    need(x._impl == ref and x.size == ref.itemsize and
         x.alignment == ref.alignment and x.byte_order == ref.byteorder,
         'dtype %r', x)
    for f, r in ((DType.int32, 'i4'), (DType.int64, 'i8'),
                 (DType.float32, 'f4'), (DType.float64, 'f8')):
        need(f()._impl == np.dtype(r), '%s', r)
    repr(x)
    return (d, form)


def scenarios(tier):
    global NFREE
    NFREE = 4 if tier == 'quick' else 6
    return [Tree(f.__name__[:-5], f) for f in (
        arr_body, make_body, index_body, dtype_body)]
