"""Linear power spectrum: fits, growth, windows, variance, normalisation."""
import math

import numpy as np

from pyhipp.astro.cosmology.flat_lambda_cdm_nr import _FlatLambdaCDMNR
from pyhipp.astro.cosmology import power_spectrum as P

from ..engine import Tree
from ..util import need, outcome, close

LEVEL = 'exploration'
RULE = ('every cosmology of the alphabet, with and without the baryon '
        'effect, x every wave number, radius and redshift; distinct by the '
        'case')
ASSUMPTIONS = ['the published fitting formulae are the definition',
               'variances agree with an independent integration to 1e-4']
BOUNDS = {'quick': '4 cosmologies x 2 variants x 13 wave numbers x 6 '
                   'redshifts, 8 radii; 4 neutrino cosmologies',
          'thorough': '7 cosmologies, 40 wave numbers, 11 radii'}
#        h      om     ob     n      s8
COSM = [(.6774, .3089, .0486, .9667, .8159), (.7, .25, .005, 1., .9),
        (1., 1., .05, .95, .7), (.5, .15, .06, 1.1, .8)]
MORE = [(.73, .3, .001, .9, 1.2), (.7, .3, .2, 1., .8), (.67, .45, .03, .97,
                                                         .6)]
KS = [0., 1e-8, 1e-5, 1e-4, 3e-3, .01, .02, .07, .1, .3, 1., 30., 1e4]
ZS = [0., .5, 1., 5., 40., -.5]
RS = [1e-5, 1e-3, .05, .5, 2., 8., 16., 60.]


def eh99(om, ob, onu, nnu, ol, h, z, kk):
    """Eisenstein & Hu 1999, eqs. 1-26 (and their published code)."""
    th = 2.728 / 2.7
    ob = ob if ob > 0 else 1e-5
    onu = onu if onu > 0 else 1e-5
    nnu = max(nnu, 1)
    m, b = om * h * h, ob * h * h
    fb, fn = ob / om, onu / om
    fc = 1 - fb - fn
    fcb, fbn = fc + fb, fb + fn
    zeq = 25000 * m / th**4
    b1 = .313 * m**-.419 * (1 + .607 * m**.674)
    b2 = .238 * m**.223
    zd = 1291 * m**.251 / (1 + .659 * m**.828) * (1 + b1 * b**b2)
    yd = zeq / (1 + zd)
    s = 44.5 * math.log(9.83 / m) / math.sqrt(1 + 10 * b**.75)
    pc = .25 * (5 - math.sqrt(1 + 24 * fc))
    pcb = .25 * (5 - math.sqrt(1 + 24 * fcb))
    g2 = om * (1 + z)**3 + (1 - om - ol) * (1 + z)**2 + ol
    omz, olz = om * (1 + z)**3 / g2, ol / g2
    d1 = zeq / (1 + z) * 2.5 * omz / (
        omz**(4 / 7) - olz + (1 + omz / 2) * (1 + olz / 70))
    an = fc / fcb * (5 - 2 * (pc + pcb)) / (5 - 4 * pcb) * \
        (1 + yd)**(pcb - pc) * (1 + fbn * (-.553 + .126 * fbn**2)) / \
        (1 - .193 * math.sqrt(fn * nnu) + .169 * fn * nnu**.2) * \
        (1 + (pc - pcb) / 2 * (1 + 1 / (3 - 4 * pc) / (7 - 4 * pcb)) /
         (1 + yd))
    ag = math.sqrt(an)
    bc = 1 / (1 - .949 * fbn)
    k = kk * h
    q = k / m * th**2
    yfs = 17.2 * fn * (1 + .488 * fn**(-7 / 6)) * (nnu * q / fn)**2
    t1 = d1**(1 - pcb)
    t2 = (d1 / (1 + yfs))**.7
    dcb = (1 + t2)**(pcb / .7) * t1
    dcbn = (fcb**(.7 / pcb) + t2)**(pcb / .7) * t1
    geff = m * (ag + (1 - ag) / (1 + (k * s * .43)**4))
    qe = q * m / geff
    L = math.log(2.71828 + 1.84 * bc * ag * qe)
    Cc = 14.4 + 325 / (1 + 60.5 * qe**1.11)
    T = L / (L + Cc * qe**2)
    qn = 3.92 * q * math.sqrt(nnu / fn)
    if qn > 0:
        T *= 1 + 1.2 * fn**.64 * nnu**(.3 + .6 * fn) / (
            qn**-1.6 + qn**.8)
    return T * dcb / d1, T * dcbn / d1


def eh98(om, fb, h, tcmb, kk):
    """Eisenstein & Hu 1998, eqs. 2-24."""
    th = tcmb / 2.7
    m = om * h * h
    b = m * fb
    k = abs(kk) * h
    if k == 0:
        return 1., 1., 1.
    zeq = 2.5e4 * m / th**4
    keq = .0746 * m / th**2
    b1 = .313 * m**-.419 * (1 + .607 * m**.674)
    b2 = .238 * m**.223
    zd = 1291 * m**.251 / (1 + .659 * m**.828) * (1 + b1 * b**b2)
    Rd = 31.5 * b / th**4 * 1e3 / (1 + zd)
    Re = 31.5 * b / th**4 * 1e3 / zeq
    s = 2 / (3 * keq) * math.sqrt(6 / Re) * math.log(
        (math.sqrt(1 + Rd) + math.sqrt(Rd + Re)) / (1 + math.sqrt(Re)))
    ks = 1.6 * b**.52 * m**.73 * (1 + (10.4 * m)**-.95)
    a1 = (46.9 * m)**.67 * (1 + (32.1 * m)**-.532)
    a2 = (12. * m)**.424 * (1 + (45. * m)**-.582)
    ac = a1**-fb * a2**-(fb**3)
    B1 = .944 / (1 + (458 * m)**-.708)
    B2 = (.395 * m)**-.0266
    bc = 1 / (1 + B1 * ((1 - fb)**B2 - 1))
    y = zeq / (1 + zd)
    Gy = y * (-6 * math.sqrt(1 + y) + (2 + 3 * y) * math.log(
        (math.sqrt(1 + y) + 1) / (math.sqrt(1 + y) - 1)))
    ab = 2.07 * keq * s * (1 + Rd)**-.75 * Gy
    bn = 8.41 * m**.435
    bb = .5 + fb + (3 - 2 * fb) * math.sqrt((17.2 * m)**2 + 1)
    q = k / 13.41 / keq

    def T0(al, be):
        Cc = 14.2 / al + 386 / (1 + 69.9 * q**1.08)
        L = math.log(math.e + 1.8 * be * q)
        return L / (L + Cc * q * q)
    f = 1 / (1 + (k * s / 5.4)**4)
    Tc = f * T0(1, bc) + (1 - f) * T0(ac, bc)
    st = s / (1 + (bn / (k * s))**3)**(1 / 3)
    x = k * st
    j0 = math.sin(x) / x
    Tb = (T0(1, 1) / (1 + (k * s / 5.2)**2) + ab / (1 + (bb / (k * s))**3) *
          math.exp(-(k / ks)**1.4)) * j0
    return fb * Tb + (1 - fb) * Tc, Tb, Tc


def growth(om, z):
    def g(z):
        e = om * (1 + z)**3 + 1 - om
        m, l = om * (1 + z)**3 / e, (1 - om) / e
        return 2.5 * m / (m**(4 / 7) - l + (1 + m / 2) * (1 + l / 70)) / \
            (1 + z)
    return g(z) / g(0)


def window(x):
    if x < 1e-3:
        return 1 - x * x / 10
    return 3 * (math.sin(x) - x * math.cos(x)) / x**3


def transfer(c, baryon, k):
    h, om, ob = c[:3]
    return eh98(om, ob / om, h, 2.728, k)[0] if baryon else \
        eh99(om, ob, 0., 0, 1 - om, h, 0., k)[0]


_S, _T = {}, {}
LN_K = np.linspace(-23., 23., 12001)


def variance(c, baryon, r, z):
    """Unnormalised, Simpson's rule in ln k."""
    if (c, baryon) not in _T:
        _T[c, baryon] = np.array([
            math.exp(u)**(3 + c[3]) * transfer(c, baryon, math.exp(u))**2
            for u in LN_K])
    key = (c, baryon, r)
    if key not in _S:
        y = _T[c, baryon] * np.array([window(math.exp(u) * r)**2
                                      for u in LN_K])
        w = np.ones(len(LN_K))
        w[1:-1:2], w[2:-1:2] = 4, 2
        _S[key] = math.fsum((w * y).tolist()) * (LN_K[1] - LN_K[0]) / 3
    return _S[key] * growth(c[1], z)**2


_P = {}


def spectrum(c, baryon):
    if (c, baryon) not in _P:
        _P[c, baryon] = P._PowerSpectrumFlatLambdaCDMNR(
            _FlatLambdaCDMNR(*c), baryon)
    return _P[c, baryon]


def model(ch):
    c = ch.pick(COSM, 'cosmology')
    baryon = ch.flag('baryon effect')
    return c, baryon, spectrum(c, baryon)


def power_body(ch):
    c, b, p = model(ch)
    k = ch.pick(KS, 'k')
    z = ch.pick(ZS, 'z')
    t = transfer(c, b, k)
    close(p.transfer_func(k), t, f'transfer at {k}', rtol=1e-5, atol=0)
    d = growth(c[1], z)
    close(p.growth_fac(z), d, f'growth at {z}', rtol=1e-9)
    close(p.delta_crit(z), 1.686 / d, 'critical overdensity', rtol=1e-9)
    if k > 0:
        norm = c[4]**2 / variance(c, b, 8., 0.)
        want = norm * k**(3 + c[3]) * t**2 * d**2
        close(p.big_delta_sqr(k, z) / want, 1., f'Delta^2({k}, {z})',
              rtol=1e-4)
        close(p.power(k, z) / (want * 2 * math.pi**2 / k**3), 1.,
              f'P({k}, {z})', rtol=1e-4)
        close(p.power(k, z) * k**3 / (2 * math.pi**2) /
              p.big_delta_sqr(k, z), 1., 'P and Delta^2', rtol=1e-9)
        close(p.power(k, z) / p.power(k, 0.), d * d, 'growth of P')
    return c, b, k, z


def sigma_body(ch):
    c, b, p = model(ch)
    r = ch.pick(RS, 'r')
    z = ch.pick(ZS[:3], 'z')
    s = p.sigma_sqr(r, z)
    want = c[4]**2 * variance(c, b, r, z) / variance(c, b, 8., 0.)
    close(s / want, 1., f'variance in {r} at {z}', rtol=1e-4)
    if r == 8. and z == 0.:
        close(s, c[4]**2, 'sigma_8', rtol=1e-6)
    rho = _FlatLambdaCDMNR(*c).densities().mean0()
    m = 4 / 3 * math.pi * r**3 * rho
    close(p.sigma_sqr_at_mass(m, z) / s, 1., 'variance of mass', rtol=1e-6)
    close(s / p.sigma_sqr(r, 0.), growth(c[1], z)**2, 'growth of variance',
          rtol=1e-6)
    return c, b, r, z


def interp_body(ch):
    c, b, p = model(ch)
    rg = ch.pick([(-2., 4.), (0., 1.), (-5., 5.), (-9.5, 9.75)], 'range')
    n = ch.pick([2, 3, 5], 'nodes')
    f = p.interp_lg_sigma_at_lg_mass(rg, n)
    x = [rg[0] + (rg[1] - rg[0]) * i / (n - 1) for i in range(n)]
    y = [.5 * math.log10(p.sigma_sqr_at_mass(10.**v, 0.)) for v in x]
    for i in range(n):
        close(f.value_at(x[i]), y[i], f'node {i}', rtol=1e-7, atol=1e-9)
        if i:
            close(f.value_at(.25 * x[i - 1] + .75 * x[i]),
                  .25 * y[i - 1] + .75 * y[i], 'between', rtol=1e-7,
                  atol=1e-9)
            need(y[i] < y[i - 1], 'variance grows with mass')
    for d in (1e-9, .5, 40.):
        close([f.value_at(rg[0] - d), f.value_at(rg[1] + d)], [y[0], y[-1]],
              'beyond the nodes', rtol=1e-7, atol=1e-9)
    return c, b, rg, n


def window_body(ch):
    p = spectrum(COSM[0], False)
    k = ch.pick([1e-9, 1e-5, 1e-3, .1, 1., 3., 100.], 'k')
    r = ch.pick([1e-3, .5, 1., 4.493409457909064, 8.], 'r')
    x = k * r
    # the closed form cancels for small arguments: 1e-16 / x^2
    close(p.window_func(k, r), window(x), f'window {k} {r}', rtol=1e-6,
          atol=1e-5 if x < 1e-4 else 1e-7 if x < 1e-2 else 1e-10)
    return k, r


NU = [(.3, .05, .02, 1, .7, .7), (.3, .05, .02, 3, .7, .7),
      (.25, .04, .05, 2, .6, .5), (.3, .0, .0, 0, .7, 1.),
      (.3, 2e-4, 3e-4, 1, .5, 2.)]


def nu_body(ch):
    a = ch.pick(NU, 'cosmology')
    z = ch.pick([None, 0., 1., 30.], 'z')
    k = ch.pick(KS, 'k')
    how = ch.pick(['init', 'variant', 'default', 'reset'], 'how')
    t = P._TransferFunctionEH99() if how == 'default' else \
        P._TransferFunctionEH99(how == 'init')
    if how == 'variant':
        t.set_variant(True)
    if how == 'reset':
        t.set_cosmology(.9, .1, .1, 1, .1, 1.)
        t.transfer_function(.1)
    zz = () if z is None else (z,)
    t.set_cosmology(*a, *zz)
    want = eh99(*a, z or 0., k)
    close(t.transfer_function(k), want[how in ('init', 'variant')],
          f'transfer at {k}', rtol=1e-8, atol=0)
    return a, z, k, how


def eh98_body(ch):
    a = ch.pick([(.3, .15, .7), (.25, .3, .5), (1., .05, 1.)], 'cosmology')
    T = ch.pick([None, 2.728, 2.5], 'tcmb')
    k = ch.pick(KS + [-.1], 'k')
    t = P._TransferFunctionEH98()
    if ch.flag('reset'):
        t.set_cosmology(.9, .1, .9, 2.)
    t.set_cosmology(*a, *([] if T is None else [T]))
    want = eh98(*a, T or 2.728, k)
    close(t.transfer_function(k), want[0], f'transfer at {k}', rtol=1e-5,
          atol=0)
    return a, T, k


def variant_body(ch):
    """One transfer function set to several cosmologies and variants."""
    h = [(ch.pick(COSM[:3], 'cosmology'), ch.flag('baryon effect'))
         for _ in range(ch.pick([1, 2, 3], 'settings'))]
    t = None
    for c, b in h:
        m = _FlatLambdaCDMNR(*c)
        if t is None:
            t = P._TransferFunctionFlatLambdaCDMNR(m, b)
        else:
            t.set_variant(m, b)
        for k in (1e-3, .1, 3.):
            close(t.transfer_function(k), transfer(c, b, k),
                  f'transfer at {k} after {h}', rtol=1e-5, atol=0)
    return h


BAD99 = [(.3, -1e-9, 0., 1, .7, .7), (.3, .05, -1., 1, .7, .7),
         (.3, .05, 0., 1, .7, 0.), (.3, .05, 0., 1, .7, 2.01),
         (.3, .05, 0., 1, .7, .7, -1.), (.3, .05, 0., 1, .7, .7, 99.5)]
BAD98 = [(0., .1, .7), (.3, 0., .7), (.3, .1, -.7), (.3, .1, .7, 0.),
         (-.3, .1, .7)]


def reject_body(ch):
    n = ch.pick([99, 98], 'fit')
    a = ch.pick(BAD99 if n == 99 else BAD98, 'arguments')
    t = P._TransferFunctionEH99() if n == 99 else P._TransferFunctionEH98()
    st, e = outcome(t.set_cosmology, *[float(v) for v in a])
    need(st == 'err' and isinstance(e, ValueError), 'accepted %s (%s %r)', a,
         st, e)
    return a


def warm():
    p = spectrum(COSM[0], False)
    p.power(.1, 0.), p.big_delta_sqr(.1, 0.), p.delta_crit(0.)
    p.sigma_sqr_at_mass(1., 0.), p.growth_fac(0.), p.transfer_func(.1)
    p.interp_lg_sigma_at_lg_mass((0., 1.), 2).value_at(.5)
    p.window_func(1., 1.)
    p.sigma_sqr(1., 0.)
    t = P._TransferFunctionEH98()
    t.set_cosmology(.3, .1, .7)
    t.set_cosmology(.3, .1, .7, 2.5)
    t.transfer_function(.1)
    t = P._TransferFunctionEH99()
    t.set_cosmology(.3, .05, .02, 1, .7, .7)
    t.set_cosmology(.3, .05, .02, 1, .7, .7, 1.)
    t.transfer_function(.1)
    t.set_variant(True)
    for a in (BAD99[0], BAD99[-1]):
        outcome(t.set_cosmology, *[float(v) for v in a])


def scenarios(tier):
    if tier == 'thorough':
        COSM.extend(MORE)
        RS.extend([.1, 1., 30.])
        KS.extend([10**(-4.9 + .25 * i) for i in range(27)])
    return [Tree(f.__name__[:-5], f) for f in (
        power_body, sigma_body, interp_body, window_body, nu_body,
        eh98_body, variant_body,
        reject_body)]
