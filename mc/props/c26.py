"""Kernels, standardisation, transformation to a normal distribution."""
import math

import numpy as np

from pyhipp.stats import kernel as K
from pyhipp.stats.preprocessing import Standardize
from pyhipp.stats.prob_dist import ProbTransToNorm

from .. import layout
from ..engine import Tree
from ..util import need, outcome, eq, close, Frozen
from .c20 import rmean, rsd

LEVEL = 'exploration'
RULE = 'every case of the alphabets; distinct by the case'
ASSUMPTIONS = ['scipy.stats.norm is trusted']
BOUNDS = {'quick': 'distances from 8 values x 8 widths x kernels x 4 forms; '
                   'training matrices of 1-3 x 1-2 entries; samples of 2-5 '
                   'values', 'thorough': 'the same with samples of 2-6'}
NS = 5
DS = [0., .25, .999999, 1., 1.000001, 2.5, 20., 100.]


def kernel_body(ch):
    name = ch.pick(['gaussian', 'tophat'], 'kernel')
    p = ch.pick([None, .25, 1., 2.5, 2, np.float64(.5), np.int64(3),
                 np.float32(1.5)], 'parameter')
    how = ch.pick(['class', 'tuple', 'str', 'scalar', 'object'], 'made by')
    key = 'sigma' if name == 'gaussian' else 'radius'
    kw = {} if p is None else {key: p}
    cls = {'gaussian': K.Gaussian, 'tophat': K.Tophat}[name]
    if how == 'class':
        k = cls(**kw)
    elif how == 'object':
        o = cls(**kw)
        n, k = K.predefined.create(o)
        need(k is o and n == name, 'object replaced')
    elif how == 'str':
        n, k = K.predefined.create(name)
        need(n == name, 'name %r', n)
        p = None
    elif how == 'tuple':
        n, k = K.predefined.create((name, kw))
        need(n == name, 'name %r', n)
    else:
        if p is None:
            return None
        n, k = K.predefined.create(p)
        name = 'gaussian'
        need(n == name, 'a number gives %r', n)
    need(type(k) is {'gaussian': K.Gaussian, 'tophat': K.Tophat}[name],
         'kernel type %s', type(k))
    s = 1. if p is None else float(p)
    ds = ch.many(DS, 2, 'd')
    form = ch.pick(['array', 'list', 'scalar', '2d'], 'form')
    d = {'array': np.array(ds), 'list': ds, 'scalar': ds[0],
         '2d': np.array([ds, ds[::-1]])}[form]
    fz = Frozen(**({'d': d} if isinstance(d, np.ndarray) else {}))
    out = k(d)

    def f(v):
        return math.exp(-.5 * v * v / (s * s)) if name == 'gaussian' else \
            (1. if v < s else 0.)
    want = np.vectorize(f, otypes=[float])(np.asarray(d))
    close(out, want, name, atol=1e-300)
    need(np.asarray(out).dtype.kind == 'f', 'dtype')
    if form != 'scalar':
        need(not np.shares_memory(out, np.asarray(d)), 'aliases the input')
    fz.check('kernel')
    repr(k)
    return (name, how, repr(p), tuple(ds), form)


def volume_body(ch):
    nd = ch.pick(list(range(0, 10)), 'dims')
    r = ch.pick([.5, 1., 3.], 'radius')
    mx = ch.pick([None, 0., .25, 2., 10., 0], 'max_radius')
    t = K.Tophat(r)
    got = t.volume(nd, mx)
    e = r if mx is None else min(r, mx)
    want = math.pi**(nd / 2) / math.gamma(nd / 2 + 1) * e**nd
    close(got, want, 'volume')
    return (nd, r, repr(mx))


def standard_body(ch):
    n = ch.pick([1, 2, 3], 'rows')
    m = ch.pick([1, 2], 'columns')
    cols = [ch.many([0., 2., -1.5], n, f'c{j}') for j in range(m)]
    lb = ch.pick([None, .5], 'sd_lb')
    form = ch.pick(['array', 'list'], 'form')
    x = np.array(cols).T
    fz = Frozen(x=x)
    src = x if form == 'array' else x.tolist()
    s = Standardize(src) if lb is None else Standardize(src, lb)
    t = np.array([[5., -3.], [0., 2.], [1., 1.]])[:, :m]
    ft = Frozen(t=t)
    sd = [max(rsd(c, None), 1e-10 if lb is None else lb) for c in cols]
    mu = [rmean(c, None) for c in cols]
    want = (t - mu) / sd
    got = s(t)
    close(got, want, 'standardised', rtol=1e-7, atol=1e-7)
    back = s(got, backward=True)
    close(back, t, 'back', rtol=1e-6, atol=1e-6)
    close(s(t, True), t * sd + mu, 'backward', rtol=1e-9)
    close(s(t[0]), want[0], 'one row', rtol=1e-7, atol=1e-7)
    x[...] = 99.                # later changes of the training data
    close(s(t), want, 'after the training data changed', rtol=1e-7,
          atol=1e-7)
    ft.check('Standardize')
    need(outcome(Standardize, [1., 2.])[0] == 'err', '1-d training data')
    repr(s)
    return (str(cols), lb, form)


def prob_body(ch):
    n = ch.pick(list(range(2, NS + 1)), 'n')
    pool = [3., -1., .5, 10., 3.25, -7.]
    xs = [pool[i] for i in range(n)]
    if ch.flag('tie'):
        xs[1] = xs[0]
    if ch.flag('reversed'):
        xs = xs[::-1]
    a = np.array(xs)
    fz = Frozen(a=a)
    o = outcome(ProbTransToNorm, a)
    if len(set(xs)) < n:
        need(o[0] == 'err', 'equal sample values accepted')
        return (tuple(xs),)
    need(o[0] == 'ok', 'ProbTransToNorm: %r', o[1])
    t = o[1]
    s = sorted(xs)
    from scipy.stats import norm
    i = ch.pick(list(range(n - 1)), 'interval')
    f = ch.pick([0., .3, 1.], 'fraction')
    v = s[i] + f * (s[i + 1] - s[i])
    p = (i + f) / (n - 1)
    q = np.array([v, v])
    close(t.forw(q, with_norm=False), [p, p], 'cumulative probability')
    close(t.back(np.array([p, p]), with_norm=False), q, 'inverse')
    if 0 < p < 1:
        z = norm.ppf(p)
        close(t.forw(q), [z, z], 'normal score')
        close(t.back(np.array([z, z])), q, 'from normal score', rtol=1e-7)
        close(t.back(t.forw(q)), q, 'round trip', rtol=1e-7)
    fz.check('ProbTransToNorm')
    return (tuple(xs), i, f)


def memory():
    x = np.array([[3., -1.], [.5, 10.], [3.25, -7.]])
    v = np.array([3., -1., .5, 10., 3.25])
    return layout.tree({
        'gaussian': (K.Gaussian(.5), x), 'tophat': (K.Tophat(2.), x),
        'standardize': (lambda a, b: Standardize(a)(b), x, x + 1),
        'back': (lambda a, b: Standardize(a)(b, backward=True), x, x + 1),
        'score': (lambda a, b: ProbTransToNorm(a).forw(b), v,
                  np.array([2., .7])),
        'inverse': (lambda a, b: ProbTransToNorm(a).back(b), v,
                    np.array([.2, -.7])),
    })


def scenarios(tier):
    global NS
    NS = 5 if tier == 'quick' else 6
    return [Tree(f.__name__[:-5], f) for f in (
        kernel_body, volume_body, standard_body, prob_body)] + [memory()]
