"""Fourier transforms, smoothing, tidal field: every Fourier mode of a mesh."""
import itertools
import math

import numpy as np

from pyhipp.field.cubic_box import (Field, FFTSmoothing, FourierSpaceSmoothing,
                                    TidalField, _Gaussian, _Tophat)
from pyhipp.field.cubic_box.fft import NdRealFFT
from pyhipp.field.cubic_box.mesh import Mesh

from .. import layout
from ..engine import Tree
from ..h5ref import mem_file
from ..util import need, outcome, eq, close, Frozen

LEVEL = 'exploration'
RULE = ('every Fourier mode and phase of the mesh (a basis of all fields) and '
        'all pairs of basis fields out of a menu through each operator; '
        'distinct by the case')
ASSUMPTIONS = ['off-diagonal tidal terms are not decided for modes at the '
               'Nyquist frequency', 'the transform of NumPy is trusted']
BOUNDS = {'quick': 'meshes of 2-5 cells per side, 2 radii, both windows',
          'thorough': 'meshes of 2-7 cells'}
NS = [2, 3, 4, 5]
L = 3.


def window(method, r, k, l):
    kk = 2 * math.pi / l * math.sqrt(sum(v * v for v in k))
    if method == 'gaussian':
        return math.exp(-.5 * (kk * r)**2)
    x = kk * r
    if x < .01:
        return 1 - x**2 / 10 + x**4 / 280
    return 3 * (math.sin(x) - x * math.cos(x)) / x**3


def cic_window(k, n):
    return math.prod(1. if v == 0 else
                     (math.sin(math.pi * v / n) / (math.pi * v / n))**2
                     for v in k)


def folded(i, n):
    return i - n if i > n // 2 else i


def modes(n):
    return [k for k in itertools.product(
        [folded(i, n) for i in range(n)], repeat=3)]


def pick_mode(ch, n):
    return tuple(folded(ch.pick(list(range(n)), f'k{a}'), n)
                 for a in range(3))


def wave(k, n, ph):
    g = np.indices((n, n, n))
    return np.cos(2 * np.pi * sum(k[a] * g[a] for a in range(3)) / n + ph)


def mode_body(ch):
    n = ch.pick(NS, 'n')
    k = pick_mode(ch, n)
    ph = ch.pick([0., 1.1], 'phase')
    r = ch.pick([.4, 1.3, 0.], 'radius')
    amp = ch.pick([.5, 40.], 'amplitude') if ph == 0. else .5
    m = Mesh.new(n, L)
    c = wave(k, n, ph)
    data = 2.5 * (1 + amp * c)
    if k == (0, 0, 0):
        data = np.full((n, n, n), 2.5)
        c = np.zeros((n, n, n))
    fz = Frozen(data=data)
    delta = data / 2.5 - 1.
    for method in ('gaussian', 'tophat'):
        W = window(method, r, k, L)
        out = FFTSmoothing(r_sm=r, method=method).run(
            Field.new_by_data(data, m))
        close(out.data, 2.5 + 2.5 * W * delta,
              f'{method} smoothing of mode {k}', atol=1e-9)
        need(out.mesh.n_grids == n and out.mesh.l_box == L, 'mesh')
        res = FourierSpaceSmoothing(r_sm=r, method=method).run(
            Field.new_by_data(data, m))
        sm = delta * W / cic_window(k, n)
        close(res.delta_sm_x, sm, f'{method} corrected mode {k}', atol=1e-8)
        close(res.rho_x, data, 'rho_x')
        close(res.delta_x, delta, 'delta_x', atol=1e-9)
        close(res.delta_k, np.fft.rfftn(delta, norm='ortho'), 'delta_k',
              atol=1e-8)
        close(res.delta_sm_k, np.fft.rfftn(sm, norm='ortho'), 'delta_sm_k',
              atol=1e-7)
        need(res.l_box == L and res.n_grids == n, 'geometry')
    fz.check('smoothing')
    return (n, k, ph, r, amp)


def tidal_body(ch):
    n = ch.pick(NS, 'n')
    k = pick_mode(ch, n)
    ph = ch.pick([0., 1.1], 'phase')
    shape = ch.pick(['cic', False, None], 'correct_shape')
    r = .6
    m = Mesh.new(n, L)
    c = wave(k, n, ph)
    if k == (0, 0, 0):
        c = np.zeros((n, n, n))
    data = .01 * (1 + .75 * c)
    fz = Frozen(data=data)
    t = TidalField(r_sm=r) if shape is None else \
        TidalField(r_sm=r, correct_shape=shape)
    res = t.run(Field.new_by_data(data, m))
    fz.check('TidalField.run')
    delta = data / .01 - 1.
    W = window('gaussian', r, k, L)
    if shape is not False:
        W /= cic_window(k, n)
    sm = delta * W
    close(res.delta_x, delta, 'delta_x', atol=1e-9)
    close(res.rho_x, data, 'rho_x')
    close(res.delta_sm_x, sm, f'smoothed mode {k}', atol=1e-8)
    close(res.delta_sm_k, np.fft.rfftn(sm, norm='ortho'), 'delta_sm_k',
          atol=1e-7)
    k2 = sum(v * v for v in k)
    phi = -sm / k2 if k2 else 0. * sm
    close(res.phi_k, np.fft.rfftn(phi, norm='ortho'), 'phi_k', atol=1e-7)
    need(res.T_x.shape == (n, n, n, 3, 3), 'shape of T')
    nyq = [n % 2 == 0 and abs(v) == n // 2 for v in k]
    for i in range(3):
        for j in range(3):
            if i != j and any(nyq):
                continue
            want = k[i] * k[j] / k2 * sm if k2 else 0. * sm
            close(res.T_x[..., i, j], want, f'T_{i}{j} of mode {k}',
                  atol=1e-8)
    close(np.trace(res.T_x, axis1=-2, axis2=-1), sm if k2 else 0. * sm,
          'trace of T', atol=1e-8)
    eq(res.T_x, np.swapaxes(res.T_x, -1, -2), 'symmetry of T')
    lam(res, n)
    need(res.l_box == L and res.n_grids == n, 'geometry')
    return (n, k, ph, shape)


def lam(res, n):
    need(res.lam.shape == (n, n, n, 3), 'shape of lambda')
    e = res.lam
    T = res.T_x
    need(np.all(e[..., 1:] >= e[..., :-1]), 'eigenvalues not ascending')
    s = np.abs(T).max() + 1e-30
    close(e.sum(-1) / s, np.trace(T, axis1=-2, axis2=-1) / s,
          'sum of eigenvalues', atol=1e-8)
    close((e**2).sum(-1) / s**2, (T**2).sum((-1, -2)) / s**2,
          'sum of squared eigenvalues', atol=1e-8)
    close(e.prod(-1) / s**3, np.linalg.det(T / s), 'product of eigenvalues',
          atol=1e-8)


def field(name, n):
    g = np.indices((n, n, n)).astype(float)
    return {'ramp': 1 + g[0] + .5 * g[1]**2 + .1 * g[2],
            'spike': (np.arange(n**3).reshape(n, n, n) == n + 1) * 8. + .25,
            'mix': 3 + np.sin(g[0] * 1.7 + g[1]) + np.cos(g[2] * 2.3 * g[0])
            }[name]


def linear_body(ch):
    """Superposition, scale freedom and independence between fields."""
    n = ch.pick(NS, 'n')
    a = field(ch.pick(['ramp', 'spike', 'mix'], 'a'), n)
    b = field(ch.pick(['ramp', 'spike', 'mix'], 'b'), n)
    op = ch.pick(['fft', 'fss', 'tidal'], 'operator')
    method = 'gaussian' if op == 'tidal' else \
        ch.pick(['gaussian', 'tophat'], 'window')
    s = ch.pick([1., 3e5, 1e-6], 'scale')
    m = Mesh.new(n, L)
    fa, fb = Field.new_by_data(a, m), Field.new_by_data(b, m)
    fz = Frozen(a=a, b=b)
    if op == 'fft':
        o = FFTSmoothing(r_sm=.7, method=method)
        ra, rb = o.run(fa).data, o.run(fb).data
        rc = o.run(Field.new_by_data(a + s * b, m)).data
        close(rc, ra + s * rb, 'superposition', rtol=1e-8, atol=1e-8 * max(s, 1.))
        close(ra.mean(), a.mean(), 'mean')
        eq(o.run(fa).data, ra, 'repeated run')
    else:
        o = FourierSpaceSmoothing(r_sm=.7, method=method) if op == 'fss' \
            else TidalField(r_sm=.7)
        ra, rb = o.run(fa), o.run(fb)
        rs = o.run(Field.new_by_data(a * s, m))
        wa, wb = a.mean(), b.mean()
        c = (a / wa + b / wb) / 2
        rc = o.run(Field.new_by_data(c, m))
        for k in ('delta_x', 'delta_sm_x') + (
                ('T_x',) if op == 'tidal' else ()):
            x, y = getattr(ra, k), getattr(rb, k)
            close(getattr(rs, k), x, k + ' of the scaled field', atol=1e-8)
            close(getattr(rc, k), .5 * (x + y), k + ' of the sum', atol=1e-8)
        close(ra.delta_sm_x.mean(), 0., 'mean', atol=1e-9)
        if op == 'tidal':
            lam(ra, n)
        if n == 3:
            d = dict(n_workers=2) if s == 1. else {}
            if op == 'fss' and method == 'gaussian':
                o2 = FourierSpaceSmoothing(**d)
                o1 = FourierSpaceSmoothing(r_sm=1., method='gaussian')
            elif op == 'fss':
                o2 = FourierSpaceSmoothing(method='tophat', **d)
                o1 = FourierSpaceSmoothing(r_sm=1., method='tophat')
            else:
                o2, o1 = TidalField(**d), TidalField(r_sm=1.,
                                                     correct_shape='cic')
            eq(o2.run(fa).delta_sm_x, o1.run(fa).delta_sm_x, 'defaults')
            eq(FFTSmoothing(**d).run(fa).data, FFTSmoothing(
                r_sm=1., method='gaussian').run(fa).data, 'defaults')
            f = mem_file()
            f.create_group('g')
            ra.dump(f['g'])
            d = f['g'].load()
            for k in d.keys():
                eq(d[k], getattr(ra, k), f'dumped {k}')
            need(set(d.keys()) == set(vars(ra)), 'dumped names')
            for fl in ([], ['x']):
                need(outcome(rb.dump, f['g'], *fl)[0] == 'err', 'overwritten')
                eq(f['g'].load()['delta_x'], ra.delta_x, 'a refused dump')
            rb.dump(f['g'], flag='ac')
            eq(f['g'].load()['delta_sm_x'], rb.delta_sm_x, 'a second dump')
            f.close()
    fz.check(op)
    return (n, op, method, s, float(a[0, 0, 1]), float(b[0, 0, 1]))


def window_body(ch):
    n, l = ch.pick([(2, 1.), (5, 3.)], 'mesh')
    r = ch.pick([1e-9, 3e-4, .003, .01, .03, .1, .3, 2.], 'radius')
    k = ch.many([0., 1., -2.], ch.pick([1, 3], 'dims'), 'k')
    m = Mesh.new(n, l)._impl
    g, t = _Gaussian(r, m), _Tophat(r, m)
    ka = np.array(k)
    close(g.window_at_ki(ka), window('gaussian', r, k, l), 'gaussian')
    close(t.window_at_ki(ka), window('tophat', r, k, l), 'tophat', atol=1e-9)
    close(g.volume(), (2 * math.pi)**1.5 * r**3, 'volume')
    close(t.volume(), 4 / 3 * math.pi * r**3, 'volume')
    return (n, r, tuple(k))


def fft_body(ch):
    sh = ch.pick([(2,), (3,), (4, 3), (2, 3, 4), (3, 2, 5)], 'shape')
    norm = ch.pick([None, 'backward', 'forward', 'ortho'], 'norm')
    ax = ch.pick([None] + [a for a in [(0,), (-1,), (0, 1), (1, 0), (0, 2)]
                           if max(a) < len(sh)], 'axes')
    give = ch.flag('give shape')
    workers = ch.pick([None, 2], 'workers')
    x = np.arange(float(np.prod(sh))).reshape(sh)**1.3 - 2
    fz = Frozen(x=x)
    s = None if not give else sh if ax is None else \
        tuple(sh[a] for a in ax)
    f = NdRealFFT(shape=s, axes=ax, norm=norm, n_workers=workers)
    y = f.forward(x)
    fy = Frozen(y=y)
    axs = tuple(range(len(sh))) if ax is None else ax
    close(y, np.fft.rfftn(x, s=[sh[a] for a in axs], axes=axs, norm=norm),
          'forward')
    even = sh[axs[-1]] % 2 == 0
    if give or even:
        close(f.backward(y), x, 'round trip', atol=1e-9)
    fz.check('forward')
    fy.check('backward')
    o = NdRealFFT(shape=s, axes=ax, norm=norm, n_workers=workers,
                  overwrite_input=True)
    close(o.forward(x.copy()), y, 'forward in place', atol=1e-9)
    if give or even:
        close(o.backward(y.copy()), x, 'round trip in place', atol=1e-9)
    return (sh, norm, ax, give, workers)


def pad_body(ch):
    """Requested shape: zero padding and cropping."""
    n = ch.pick([2, 3, 5], 'n')
    s = ch.pick([1, 2, 3, 4, 6], 's')
    x = np.arange(1., n + 1)**2
    p = np.zeros(s)
    p[:min(n, s)] = x[:min(n, s)]
    f = NdRealFFT(shape=(s,))
    close(f.forward(x), np.fft.rfft(p), 'forward')
    close(f.backward(f.forward(x)), p, 'round trip', atol=1e-9)
    return (n, s)


def reject_body(ch):
    case = ch.pick(['method', 'method2', 'empty', 'empty2', 'shape',
                    'negative', 'negative2'], 'case')
    m = Mesh.new(2, 1.)
    one, zero = np.ones((2, 2, 2)), np.zeros((2, 2, 2))
    f = {'method': lambda: FFTSmoothing(method='box').run(
            Field.new_by_data(one, m)),
         'method2': lambda: FourierSpaceSmoothing(method='box').run(
            Field.new_by_data(one, m)),
         'empty': lambda: FourierSpaceSmoothing().run(
             Field.new_by_data(zero, m)),
         'empty2': lambda: TidalField().run(Field.new_by_data(zero, m)),
         'negative': lambda: FourierSpaceSmoothing().run(
            Field.new_by_data(-one, m)),
         'negative2': lambda: TidalField().run(Field.new_by_data(-one, m)),
         'shape': lambda: TidalField(correct_shape='ngp')}[case]
    need(outcome(f)[0] == 'err', '%s accepted', case)
    return case


def warm():
    m = Mesh.new(2, L)
    f = Field.new_by_data(np.ones((2, 2, 2)), m)
    for w in ('gaussian', 'tophat'):
        FFTSmoothing(method=w).run(f).mesh.l_box
        FourierSpaceSmoothing(method=w).run(f)
    for s in ('cic', False):
        TidalField(correct_shape=s).run(f)
    for k in (_Gaussian, _Tophat):
        k(1., m._impl).volume()
        k(1., m._impl).window_at_ki(np.zeros(3))


def memory():
    g = np.random.RandomState(3).rand(4, 4, 4)

    def field(g_):
        return Field.new_by_data(g_, Mesh.new(4, 3.))
    return layout.tree({
        'smoothing': (lambda g_: FourierSpaceSmoothing(r_sm=.5).run(
            field(g_)).delta_sm_x, g),
        'tidal': (lambda g_: TidalField(r_sm=.5).run(field(g_)).T_x, g),
        'fft': (lambda g_: NdRealFFT(g_.shape).backward(
            NdRealFFT(g_.shape).forward(g_)), g),
    }, jit=('strided', 'Fortran order', 'part of a larger array'))


def scenarios(tier):
    global NS
    NS = [2, 3, 4, 5] if tier == 'quick' else [2, 3, 4, 5, 6, 7]
    return [Tree(f.__name__[:-5], f) for f in (
        mode_body, tidal_body, linear_body, window_body, fft_body, pad_body,
        reject_body)] + [memory()]
