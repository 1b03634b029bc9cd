"""Bounded arithmetic helpers."""
import math

import numpy as np

from pyhipp.core.dataproc import Num

from .. import layout
from ..engine import Tree
from ..util import need, outcome, eq, close, Frozen

LEVEL = 'exploration'
RULE = ('every leaf of the choice tree over the stated value alphabet; '
        'distinct by (inputs, result)')
ASSUMPTIONS = ['lo <= hi']
BOUNDS = {'quick': 'arrays up to 3 entries over an 8-value alphabet',
          'thorough': 'arrays up to 4 entries'}
NX = 3
INF = float('inf')
VALS = [-2., 0., 1e-12, .5, 1., 3., INF, -INF, float('nan')]


def clip(v, lo, hi):
    if v != v:
        return v
    if lo is not None and v < lo:
        v = lo
    if hi is not None and v > hi:
        v = hi
    return v


def bound_body(ch):
    x = ch.upto(VALS, 0, NX, 'x')
    lo, hi = ch.pick([(None, None), (0., None), (None, 1.), (.25, .75),
                      (1., 1.), (-INF, INF), (0, 1)], 'lo,hi')
    form = ch.pick(['array', '2d', 'f4', 'list', 'strided'], 'form')
    cp = ch.pick([None, True, False], 'copy')
    a = np.array(x)
    if form == '2d':
        a = np.array([x, x[::-1]])
    elif form == 'f4':
        a = a.astype('f4')
    elif form == 'strided':
        a = np.repeat(a, 2)[::2]
    want = np.array([clip(v, lo, hi) for v in a.ravel().tolist()],
                    dtype=a.dtype).reshape(a.shape)
    arg = a.tolist() if form == 'list' else a
    before = a.copy()
    kw = {} if cp is None else {'copy': cp}
    out = Num.bound(arg, lo, hi, **kw)
    eq(out, want, 'bound')
    need(np.asarray(out).dtype == a.dtype, 'bound dtype')
    if form != 'list' and cp is None:
        o2 = Num.bound_array(a, lo, hi)
        eq(o2, want, 'bound_array')
        eq(a, before, 'bound_array input')
        need(not np.shares_memory(o2, a), 'bound_array shares memory')
    if form != 'list':
        if cp is False:
            need(out is a or np.shares_memory(out, a) or a.size == 0,
                 'in-place bound returned another array')
            eq(a, want, 'in-place bound')
        else:
            eq(a, before, 'bound(copy) input')
            need(not np.shares_memory(out, a), 'bound(copy) shares memory')
            eq(Num.bound(out, lo, hi), want, 'bound is idempotent')
    return (tuple(map(str, x)), lo, hi, form, cp)


def scalar_body(ch):
    v = ch.pick([-2, 0, 1, 3, -2., .5, 1., 3., INF, -INF,
                 np.float64(.3), np.int64(4), np.float32(-1)], 'x')
    lo, hi = ch.pick([(None, None), (0., None), (None, 1.), (.25, .75),
                      (0, 1), (1, 1)], 'lo,hi')
    want = clip(v, lo, hi)
    for f in (Num.bound, Num.bound_scalar):
        out = f(v, lo=lo, hi=hi)
        need(out == want and np.isscalar(out), '%s(%r, %r, %r) = %r, '
             'expected %r', f.__name__, v, lo, hi, out, want)
    z = np.array(v)
    out = Num.bound(z, lo, hi)
    need(float(out) == float(want), '0-d bound %r', out)
    need(z == v, '0-d bound input changed')
    if z.dtype.kind == 'f':
        out = Num.bound(z, lo, hi, copy=False)
        need(float(z) == float(want) == float(out) and
             np.shares_memory(z, out), '0-d bound in place: %r', z)
    return (str(v), lo, hi)


def int_body(ch):
    dt = ch.pick(['i8', 'i4', 'i1', 'u1', 'u2', 'bool'], 'dtype')
    x = np.array(ch.upto([-3, 0, 1, 5] if dt[0] == 'i' else [0, 1, 5], 1, NX,
                         'x')).astype(dt)
    if ch.flag('view'):
        x = np.repeat(x, 2)[::2]
    lo, hi = ch.pick([(0, 2), (.5, None), (None, 2.5), (1e-10, None)],
                     'lo,hi')
    fz = Frozen(x=x)
    want = [clip(v, lo, hi) for v in x.tolist()]
    eq(np.asarray(Num.bound(x, lo, hi), dtype=float),
       np.array(want, dtype=float), 'bound of integers')
    for f, g in ((Num.safe_lg, math.log10), (Num.safe_ln, math.log)):
        close(f(x), [g(max(v, 1e-10)) for v in x.tolist()], f.__name__)
    close(Num.safe_div(x, x), [v / max(v, 1e-10) for v in x.tolist()],
          'safe_div')
    fz.check('bound')
    return (tuple(x.tolist()), dt, lo, hi)


def inorm_body(ch):
    """Integers are real numbers too, also the ones whose squares do not
    fit."""
    dt = ch.pick(['i1', 'i4', 'i8', 'u1', 'list'], 'dtype')
    vals = {'i1': [0, 100, -100], 'i4': [0, 3, -60000], 'u1': [0, 200, 4],
            'i8': [0, 3, 4_000_000_000], 'list': [0, 3, -4]}[dt]
    x = ch.many(vals, 3, 'x')
    a = [x, x[::-1]] if dt == 'list' else np.array([x, x[::-1]], dtype=dt)
    fz = Frozen(**({} if dt == 'list' else {'a': a}))
    n = math.sqrt(math.fsum(float(v)**2 for v in x))
    close(Num.norm(a), [n, n], 'norm', rtol=1e-12)
    cols = [math.hypot(p, q) for p, q in zip(x, x[::-1])]
    close(Num.norm(a, axis=0), cols, 'norm', rtol=1e-12)
    close(Num.normalize(a), np.array([x, x[::-1]]) / max(n, 1e-10),
          'normalize', rtol=1e-12)
    close(Num.normalize(a, axis=0, lo=7.), np.array(
        [x, x[::-1]]) / np.maximum(cols, 7.), 'normalize', rtol=1e-12)
    fz.check('norm')
    return dt, tuple(x)


def log_body(ch):
    pos = [1e-12, 1e-10, .5, 1., 100., INF]
    k = ch.pick([1, 2, 3], 'n_args')
    lo = ch.pick([None, 1e-10, .1, 2.], 'lo')
    l = 1e-10 if lo is None else lo
    kw = {} if lo is None else {'lo': lo}
    args, wants = [], []
    for i in range(k):
        form = ch.pick(['array', 'scalar', '2d'] if i == 0 else
                       ['array', 'scalar'], f'form{i}')
        v = ch.pick([0., -1., 1e-12, .5, 1., 100., INF] if i == 0 else
                    [-2., 5.], f'v{i}')
        if form == 'scalar':
            args.append(v)
        elif form == '2d':
            args.append(np.array([[v, 1.], [2., -v]]))
        else:
            args.append(np.array([v, 3., 0.]))
    fz = Frozen(**{f'x{i}': a for i, a in enumerate(args)})
    for f, g in ((Num.safe_lg, math.log10), (Num.safe_ln, math.log)):
        out = f(*args, **kw)
        need((type(out) is tuple) == (k > 1), '%s result type', f.__name__)
        outs = out if k > 1 else (out,)
        need(len(outs) == k, '%s result length', f.__name__)
        for a, o in zip(args, outs):
            w = np.array([g(max(t, l)) for t in np.ravel(a).tolist()]
                         ).reshape(np.shape(a))
            close(o, w, f.__name__, rtol=1e-12)
    for f, g in ((Num.lg, math.log10), (Num.ln, math.log)):
        b = [np.abs(a) + 1. for a in args]
        out = f(*b)
        need((type(out) is tuple) == (k > 1), '%s result type', f.__name__)
        for a, o in zip(b, out if k > 1 else (out,)):
            close(o, np.array([g(t) for t in np.ravel(a).tolist()]
                              ).reshape(np.shape(a)), f.__name__, rtol=1e-12)
    fz.check('logarithms')
    return (k, lo, str(args))


def div_body(ch):
    x = np.array(ch.many([-1., 0., 4., INF], 2, 'x'))
    y = ch.pick(['s0', 's', 'arr'], 'y form')
    yv = ch.many([-1., 0., 1e-11, 2., INF], 2, 'y')
    yy = {'s0': yv[0], 's': np.float64(yv[1]), 'arr': np.array(yv)}[y]
    lo = ch.pick([None, 1e-10, 1.], 'lo')
    kw = {} if lo is None else {'lo': lo}
    fz = Frozen(x=x, **({'y': yy} if y == 'arr' else {}))
    got = Num.safe_div(x, yy, **kw)
    ys = np.broadcast_to(yy, (2,)).tolist()
    with np.errstate(all='ignore'):
        want = [np.float64(a) / max(b, 1e-10 if lo is None else lo)
                for a, b in zip(x.tolist(), ys)]
    close(got, want, 'safe_div', rtol=1e-12)
    fz.check('safe_div')
    return (str(x), str(yy), lo)


def norm_body(ch):
    shape = ch.pick([(1,), (2,), (3,), (1, 2), (2, 2), (2, 3), (2, 2, 2)],
                    'shape')
    n = int(np.prod(shape))
    vals = [0., 3., -4., 1e-11]
    if n <= 4:
        x = np.array(ch.many(vals, n, 'x')).reshape(shape)
    else:
        z = ch.pick(vals, 'a'), ch.pick(vals, 'b'), ch.pick(vals, 'c')
        x = np.array((z * 3)[:n]).reshape(shape)
    axis = ch.pick(list(range(-len(shape), len(shape))), 'axis')
    lo = ch.pick([None, 1e-10, 6.], 'lo')
    keep = ch.flag('keepdims')
    form = ch.pick(['array', 'list', 'inplace'], 'form')
    l = 1e-10 if lo is None else lo
    kw = {} if lo is None else {'lo': lo}
    m = np.moveaxis(x, axis, -1)
    nrm = np.array([math.sqrt(math.fsum(v * v for v in row))
                    for row in m.reshape(-1, m.shape[-1]).tolist()]
                   ).reshape(m.shape[:-1])
    wn = np.expand_dims(nrm, axis) if keep else nrm
    arg = x.tolist() if form == 'list' else x
    close(Num.norm(arg, axis=axis, keepdims=keep), wn, 'norm', rtol=1e-12,
          atol=0)
    if axis == len(shape) - 1 or axis == -1:
        close(Num.norm(arg, keepdims=keep), wn, 'norm (last axis)')
        if not keep:
            close(Num.norm(arg), wn, 'norm (defaults)')
    den = np.maximum(np.expand_dims(nrm, axis), l)
    want = x / den
    x0 = x.copy()
    if axis in (-1, len(shape) - 1) and keep:
        if form == 'inplace':
            kw['inplace'] = True
        out = Num.normalize(arg, **kw)
    else:
        out = Num.normalize(arg, axis=axis, inplace=form == 'inplace', **kw)
    close(out, want, 'normalize', rtol=1e-12, atol=0)
    if form == 'inplace':
        need(out is x or np.shares_memory(out, x), 'inplace result')
        close(x, want, 'normalize in place', rtol=1e-12, atol=0)
    else:
        eq(x, x0, 'normalize input')
        need(not np.shares_memory(out, x), 'normalize shares memory')
    return (shape, str(x0.tolist()), axis, lo, keep, form)


def memory():
    x = np.array([[3., -1., 1e-12], [0., 5., 2.]])
    y = np.array([[1., 0., -2.], [1e-20, 4., .5]])
    return layout.tree({
        'bound': (lambda a: Num.bound(a, 0., 2.5), x),
        'bound int': (lambda a: Num.bound(a, 0, 3), np.arange(-2, 6)),
        'bound float': (lambda a: Num.bound(a, .5, 2.5), np.arange(-2, 6)),
        'safe_div': (Num.safe_div, x, y), 'safe_lg': (Num.safe_lg, x),
        'safe_ln': (lambda a, b: Num.safe_ln(a, b, lo=.1), x, y),
        'lg': (lambda a: Num.lg(a), np.abs(y) + 1),
        'norm': (lambda a: Num.norm(a, axis=0), x),
        'normalize': (Num.normalize, x),
    })


def scenarios(tier):
    global NX
    NX = 3 if tier == 'quick' else 4
    return [Tree(f.__name__[:-5], f) for f in (
        bound_body, scalar_body, int_body, log_body, div_body, norm_body,
        inorm_body)] + [memory()]
