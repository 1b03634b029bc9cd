"""Unit systems and physical constants."""
import itertools
import math

import numpy as np

from pyhipp.astro.quantity import UnitSystem
from pyhipp.astro.quantity.unit_system import _Constants, _UnitSystem, \
    _constants

from ..engine import Tree
from ..util import need, outcome, close

LEVEL = 'exploration'
RULE = ('every triple of base units of the alphabet, directly or through the '
        'Hubble parameter, every derived attribute; distinct by the units')
ASSUMPTIONS = ['G, the masses of the Sun and the proton, and the cross '
               'section agree to 2e-5 (values recommended in different '
               'years); all else is exact']
BOUNDS = {'quick': '8 lengths x 7 times x 7 masses; 9 Hubble parameters x 5 '
                   'histories',
          'thorough': '14 x 12 x 12 units; 33 Hubble parameters'}
# SI values, independent of the code
PC, YR, MSUN = 3.0856775814913673e16, 31557600., 1.98841e30
C, G, H, MP = 299792458., 6.6743e-11, 6.62607015e-34, 1.67262192e-27
SIGMA_T = 6.6524587e-29
T_SALP = SIGMA_T * C / (4 * math.pi * G * MP)
LEN = [1., .01, 1e3, PC, 1e3 * PC, 1e6 * PC, 1e6 * PC / .6774, 7.3]
TIM = [1., 1e-3, YR, 1e9 * YR, 1e9 * YR / .7, 86400., 2.5]
MAS = [1., 1e-3, MSUN, 1e10 * MSUN, 1e10 * MSUN / .5, MP, 3.1]
HUB = [1., .7, .6774, .5, .73, 2., .01, .999, 1]
RT = 2e-5        # with measured constants
EXACT = 1e-10
MEASURED = {'u_m_to_sol', 'c_gravity', 'c_m_sun', 'c_m_p', 'proton_mass',
            'solar_mass', 'salpeter_time', 'gravity_constant', 'msun_to_kg'}


def near(k, got, want, what):
    need(abs(got / want - 1) < (
        1e-6 if k in ('c_m_p', 'proton_mass') else
        RT if k in MEASURED else EXACT),
         '%s %s: %r, expected %r', what, k, got, want)


def attrs_of(l, t, m):
    v = l / t
    e = m * v * v
    return dict(
        u_l_to_pc=l / PC, u_t_to_yr=t / YR, u_m_to_sol=m / MSUN,
        u_v_to_kmps=v / 1e3, u_e_to_erg=e / 1e-7,
        u_power_to_ergps=e / t / 1e-7,
        c_gravity=G / (l**3 / t**2 / m), c_m_sun=MSUN / m,
        c_light_speed=C / v, c_m_p=MP / m, c_h_planck=H / (l * m * v))


def quantities_of(l, t, m):
    v = l / t
    e = m * v * v
    return dict(u_l=(l, 'm'), u_t=(t, 's'), u_m=(m, 'kg'), u_v=(v, 'm/s'),
                u_e=(e, 'J'), u_power=(e / t, 'W'),
                u_angular_momentum=(l * m * v, 'kg m2 / s'),
                u_gravity_constant=(l**3 / t**2 / m, 'm3 / (kg s2)'),
                u_density=(m / l**3, 'kg / m3'), u_big_hubble=(1 / t, '1/s'))


def verify(us, l, t, m, what):
    for k, w in attrs_of(l, t, m).items():
        got = getattr(us, k)
        need(isinstance(got, float), '%s %s is %s', what, k, type(got))
        near(k, got, w, what)
    for k, (w, u) in quantities_of(l, t, m).items():
        st, v = outcome(lambda: getattr(us, k).to_value(u))
        need(st == 'ok', '%s %s has no unit of %s: %s', what, k, u, v)
        near(k, v, w, what)
    # simplest relations, to rounding
    close(us.u_v_to_kmps * us.c_light_speed, C / 1e3, 'c in km/s', rtol=1e-12)
    close(us.u_m_to_sol * us.c_m_sun, 1., 'Msun', rtol=1e-12)


def si_body(ch):
    l, t, m = ch.pick(LEN, 'l'), ch.pick(TIM, 't'), ch.pick(MAS, 'm')
    name = ch.pick([None, 'mine'], 'name') if l == 1. else None
    us = UnitSystem(l, t, m) if name is None else \
        UnitSystem(l, t, m, name=name)
    verify(us, l, t, m, 'UnitSystem')
    need(us.name == (name or 'UnitSystem'), 'name %s', us.name)
    r = us.to_simple_repr()
    need(set(r) >= {'u_l', 'u_t', 'u_m', 'u_v'} and all(
        isinstance(v, str) for v in r.values()), 'repr %s', r)
    for k in ('u_l', 'u_t', 'u_m', 'u_v'):
        need(r[k] == str(getattr(us, k)), 'repr %s: %s', k, r[k])
    need('u_l' in repr(us) and 'm' in us.to_json(), 'text forms')
    # two systems do not share anything
    other = UnitSystem(2 * l, t, 3 * m)
    verify(other, 2 * l, t, 3 * m, 'second system')
    verify(us, l, t, m, 'after making another')
    return l, t, m


def cosm_units(us, h):
    """The base units; the solar mass as the code takes it."""
    m = us.u_m.to_value('kg')
    need(abs(m / (1e10 * MSUN / h) - 1) < RT, 'unit of mass %r', m)
    close(us.u_m_to_sol * h / 1e10, 1., 'unit of mass in Msun', rtol=EXACT)
    return 1e6 * PC / h, 1e9 * YR / h, m


def cosm_body(ch):
    h = ch.pick(HUB, 'h')
    others = [h * f for f in ch.pick([(), (2.,), (1 + 3e-5,), (1 - 1e-7, 1.),
                                      (1.01, 1 + 1e-9)], 'made before')]
    made = [(v, UnitSystem.create_for_cosmology(v)) for v in others + [h]]
    for v, us in made:
        verify(us, *cosm_units(us, v), f'cosmology h={v}')
        # 100 h km/s/Mpc, written in h/Gyr: independent of h
        H0 = 1e5 / (1e6 * PC)
        close(H0 * v * us.u_t.to_value('s'), .1022712165045695,
              'H0 in h/Gyr', rtol=1e-9)
    return h, others


def jit_body(ch):
    h = ch.pick([None] + HUB, 'h')
    if h is None:
        l, t, m = ch.pick(LEN, 'l'), ch.pick(TIM, 't'), ch.pick(MAS, 'm')
        us = _UnitSystem(l, t, m, 4.)
        need(us.u_temperature == 4., 'temperature')
    else:
        from pyhipp.astro.cosmology.flat_lambda_cdm_nr import \
            _make_us_for_cosmology
        us = _make_us_for_cosmology(float(h))
        l, t, m = 1e6 * PC / h, 1e9 * YR / h, us.u_mass
        close(m * us.solar_mass, us.solar_mass * 1e10 / h *
              _constants.msun_to_kg, 'unit of mass', rtol=EXACT)
        need(abs(m / (1e10 * MSUN / h) - 1) < RT, 'unit of mass %r', m)
    v = l / t
    want = dict(
        u_length=l, u_time=t, u_mass=m, u_gravity_constant=l**3 / t**2 / m,
        u_density=m / l**3, u_big_hubble=1 / t, u_velocity=v,
        u_velocity_in_kmps=v / 1e3, proton_mass=MP / m, solar_mass=MSUN / m,
        pc=PC / l, yr=YR / t, salpeter_time=T_SALP / t, light_speed=C / v,
        gravity_constant=G / (l**3 / t**2 / m))
    for k, w in want.items():
        got = getattr(us, k)
        near(k, got, w, '_UnitSystem')
    # the two implementations agree
    ref = UnitSystem(l, t, m)
    for a, b in (('light_speed', 'c_light_speed'), ('solar_mass', 'c_m_sun'),
                 ('gravity_constant', 'c_gravity'), ('proton_mass', 'c_m_p'),
                 ('u_velocity_in_kmps', 'u_v_to_kmps')):
        close(getattr(us, a) / getattr(ref, b), 1., a, rtol=RT)
    return l, t, m


def const_body(ch):
    c = ch.pick([_Constants(), _constants], 'constants')
    want = dict(pc_to_m=PC, kpc_to_m=1e3 * PC, mpc_to_m=1e6 * PC,
                yr_to_s=YR, kyr_to_s=1e3 * YR, myr_to_s=1e6 * YR,
                gyr_to_s=1e9 * YR, msun_to_kg=MSUN, light_speed=C,
                proton_mass=MP, gravity_constant=G, solar_mass=MSUN,
                salpeter_time=T_SALP)
    k = ch.pick(sorted(want), 'name')
    got = getattr(c, k)
    near(k, got, want[k], 'constant')
    for a, w in (('mpc_to_m', 1e6 * PC), ('gyr_to_s', 1e9 * YR),
                 ('msun_to_kg', MSUN)):
        got = float(getattr(UnitSystem, a))
        near(a, got, w, 'UnitSystem')
    return k


def warm():
    _UnitSystem(1., 1., 1., 1.)


def scenarios(tier):
    if tier == 'thorough':
        LEN.extend([1e-10, 1e9, 1.5e11, 1e24, .3, 2.])
        TIM.extend([1e-9, 60., 1e6 * YR, 3600., 1e20])
        MAS.extend([1e-30, 6e24, 1e12 * MSUN, 70., 1e-6])
        HUB.extend([.05 * i for i in range(3, 27)])
    return [Tree(f.__name__[:-5], f) for f in (
        si_body, cosm_body, jit_body, const_body)]
