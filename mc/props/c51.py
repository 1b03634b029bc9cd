"""Background cosmology, its registry and parameter lists."""
import json
import math
import os
import pathlib
import shutil
import tempfile

import astropy.cosmology
import numpy as np
from scipy.integrate import quad

from pyhipp.astro.cosmology import Param, ParamList, model as M
from pyhipp.astro.cosmology.flat_lambda_cdm_nr import _FlatLambdaCDMNR, \
    _planck_2015

from ..engine import Bfs, System, Tree
from ..util import need, outcome, eq, close, Frozen
from .c50 import C, G, MSUN, PC, YR

LEVEL = 'model_checking'
ASSUMPTIONS = ['flat models; three massless neutrino species (N_eff 3.04)',
               'agreement with an independent integration to 1e-4']
BOUNDS = {'quick': '4 parameter sets x 5 ways to make a model x 11 redshifts '
                   'in 4 forms; registry and parameter-list histories of '
                   'depth 3',
          'thorough': '7 parameter sets x 12 redshifts; histories of depth 4'}
RT = 1e-4
SETS = [dict(hubble=.6774, omega_m0=.3089, omega_l0=.6911, omega_b0=.0486,
             sigma_8=.8159, n_spec=.9667, t_cmb=2.7255),
        dict(hubble=.7, omega_m0=.3, omega_l0=.7, omega_b0=.045, t_cmb=2.7255),
        dict(hubble=1., omega_m0=.25, omega_l0=.75, omega_b0=.045, t_cmb=0.,
             sigma_8=.9, n_spec=1.),
        dict(hubble=.512345678, omega_m0=.9, omega_l0=.1, omega_b0=.1, t_cmb=5.)]
MORE = [dict(hubble=.73, omega_m0=.1, omega_l0=.9, omega_b0=.02, t_cmb=2.7),
        dict(hubble=2., omega_m0=.31, omega_l0=.69, omega_b0=.31, t_cmb=1.),
        dict(hubble=.6, omega_m0=.3, omega_l0=.7, omega_b0=1e-3, t_cmb=2.73)]
ZS = [0., 1e-3, .3, 1., 3., 9., 99.]
DATA = pathlib.Path(M.__file__).parents[1] / 'data' / 'cosmologies'
NAMES = sorted(p.stem for p in DATA.glob('*.json'))
H0_GYR = 1e5 / (1e6 * PC) * 1e9 * YR            # 100 km/s/Mpc in 1/Gyr
A_RAD = 7.565733e-16                            # J m^-3 K^-4


class Ref:
    """A flat universe of matter, radiation and a cosmological constant."""

    def __init__(self, p):
        self.h, self.om = p['hubble'], p['omega_m0']
        self.ob = p['omega_b0']
        hs = 1e5 * self.h / (1e6 * PC)
        self.rho0 = 3 * hs * hs / (8 * math.pi * G)        # kg m^-3
        t = p['t_cmb']
        og = A_RAD * t**4 / C**2 / self.rho0
        self.orad = og * (1 + .22710731766 * 3.04)
        self.ol = 1 - self.om - self.orad

    def e2(self, z):
        a = 1 + z
        return self.om * a**3 + self.orad * a**4 + self.ol

    def dc(self, z):            # Mpc/h
        i = quad(lambda x: self.e2(x)**-.5, 0, z, epsabs=0, epsrel=1e-10)[0]
        return C / 1e5 * i

    def tint(self, a0, a1):     # Gyr/h
        def f(a):
            return a / math.sqrt(self.om * a + self.orad + self.ol * a**4)
        # dt = da / (a H) = a da / (H0 sqrt(om a + or + ol a^4))
        return quad(f, a0, a1, epsabs=0, epsrel=1e-10)[0] / H0_GYR

    def age(self, z):
        return self.tint(0, 1 / (1 + z))

    def lookback(self, z):
        return self.tint(1 / (1 + z), 1)

    def rho_crit(self, z):      # 1e10 Msun/h / (Mpc/h)^3
        return self.rho0 * self.e2(z) / (1e10 * MSUN / self.h) * \
            (1e6 * PC / self.h)**3


def table(c):
    r = Ref
    return dict(
        big_hubble=(c.big_hubble, lambda r, z: H0_GYR * r.e2(z)**.5),
        omega_m=(c.omega_m, lambda r, z: r.om * (1 + z)**3 / r.e2(z)),
        omega_l=(c.omega_l, lambda r, z: r.ol / r.e2(z)),
        omega_b=(c.omega_b, lambda r, z: r.ob * (1 + z)**3 / r.e2(z)),
        rho_crit=(c.rho_crit, lambda r, z: r.rho_crit(z)),
        rho_matter=(c.rho_matter, lambda r, z: r.rho_crit(0) * r.om *
                    (1 + z)**3 / r.e2(0)),
        age=(c.age, lambda r, z: r.age(z)),
        lookback=(c.times.lookback_at, lambda r, z: r.lookback(z)),
        comoving=(c.distances.comoving_at, lambda r, z: r.dc(z)),
        angular=(c.distances.angular_diameter_at,
                 lambda r, z: r.dc(z) / (1 + z)),
        luminosity=(c.distances.luminosity_at,
                    lambda r, z: r.dc(z) * (1 + z)),
        modulus=(c.distances.distance_modulus_at, lambda r, z: 5 * math.log10(
            r.dc(z) / r.h * (1 + z) * 1e5) if z > 0 else -math.inf))


QNAMES = ['big_hubble', 'omega_m', 'omega_l', 'omega_b', 'rho_crit',
          'rho_matter', 'age', 'lookback', 'comoving', 'angular',
          'luminosity', 'modulus']


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='mc51-')
        return pathlib.Path(self.d)

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def make(p, way, d):
    if way == 'parameters':
        return M.LambdaCDM.from_parameters(p)
    if way == 'named':
        return M.LambdaCDM.from_parameters(
            {k: np.array(v) for k, v in p.items()}, name='me', data_dir=d,
            meta={'a': 1})
    if way == 'astropy':
        return M.LambdaCDM.from_astropy_model(astropy.cosmology.FlatLambdaCDM(
            H0=100. * p['hubble'], Om0=p['omega_m0'], Ob0=p['omega_b0'],
            Tcmb0=p['t_cmb']), name='astro')
    if way == 'params':
        return M.LambdaCDM(ParamList([Param(v, name=k)
                                      for k, v in p.items()]), d)
    f = d / 'x.json'
    f.write_text(json.dumps(dict(name='filed', data_dir='sub', extra=[3],
                                 parameters=p)))
    return M.LambdaCDM.from_conf_file(f)


def check_attrs(c, p, way, d):
    for k in ('hubble', 'omega_m0', 'omega_b0', 't_cmb', 'sigma_8', 'n_spec',
              'omega_l0'):
        if k not in p or (way == 'astropy' and k in ('sigma_8', 'n_spec')):
            st, e = outcome(getattr, c, k)
            need(st == 'err' and isinstance(e, KeyError), 'missing %s', k)
            continue
        if way == 'astropy' and k == 'omega_l0':
            close(c.omega_l0, Ref(p).ol, k, rtol=1e-4)
        else:
            close(getattr(c, k), p[k], k)
    close(c.baryon_fraction0, p['omega_b0'] / p['omega_m0'], 'baryons')
    close(c.big_hubble0, H0_GYR, 'big_hubble0', rtol=1e-5)
    name, data, meta = {
        'parameters': ('', pathlib.Path.cwd(), {}),
        'named': ('me', d, {'a': 1}), 'astropy': ('astro', pathlib.Path.cwd(),
                                                  {}),
        'params': ('LambdaCDM', d, None),
        'file': ('filed', d / 'sub', {'extra': [3]})}[way]
    need(c.name == name, 'name %r, expected %r', c.name, name)
    need(pathlib.Path(c.data_dir) == pathlib.Path(data), 'data_dir %s',
         c.data_dir)
    need(c.meta == meta, 'meta %s, expected %s', c.meta, meta)
    r = c.to_simple_repr()
    need(r['name'] == name and [q['name'] for q in r['params']][:1] ==
         ['hubble'], 'repr %s', r)


def model_body(ch):
    p = ch.pick(SETS, 'parameters')
    way = ch.pick(['parameters', 'named', 'astropy', 'params', 'file'], 'way')
    with Scratch() as d:
        p0 = dict(p)
        c = make(p, way, d)
        need(p == p0, 'parameters changed')
        check_attrs(c, p, way, d)
    r = Ref(p)
    q = ch.pick(QNAMES, 'quantity')
    form = ch.pick(['scalar', 'list', 'array', '2-d'], 'form')
    far = [] if way not in ('parameters', 'named') else \
        [1100., 3e3] + ([-.5, -.9] if q != 'modulus' else [])
    z = ch.pick(ZS + far, 'z') if form == 'scalar' else ZS
    f, want = table(c)[q]
    if form == 'scalar':
        with np.errstate(divide='ignore'):
            got = f(z)
        need(np.ndim(got) == 0, '%s of a scalar: %s', q, got)
        close(got, want(r, z), f'{q} at {z}', rtol=RT, atol=1e-9)
    else:
        a = np.array(z)
        if form == '2-d':
            a = np.stack([a, a[::-1]])
        fz = Frozen(a=a)
        with np.errstate(divide='ignore'):
            got = f(a.tolist() if form == 'list' else a)
        fz.check(q)
        close(got, np.array([want(r, float(v)) for v in a.ravel()]
                            ).reshape(a.shape), q, rtol=RT, atol=1e-9)
    # calculators are made once and belong to the model
    for k in ('distances', 'times', 'redshifts', 'halo_theory'):
        need(getattr(c, k) is getattr(c, k), '%s made twice', k)
        need(getattr(c, k).model is c, 'model of %s', k)
    return p, way, q, form, z


def inverse_body(ch):
    p = ch.pick(SETS[:3], 'parameters')
    c = M.LambdaCDM.from_parameters(p)
    r = Ref(p)
    form = ch.pick(['scalar', 'array'], 'form')
    if form == 'scalar':
        z = ch.pick([1e-3, .3, 1., 3., 9., 99., 500., 2500.], 'z')
        d = r.dc(z)
        kw = ch.pick([{}, {'zmax': 4e3}, {'zmin': 5e-4, 'zmax': 3e3},
                      {'method': 'Bounded'}], 'solver')
        if z > 1e3 and 'zmax' not in kw:
            return None
        got = c.redshifts.at_comoving(d, **kw)
        close(got, z, 'redshift of distance', rtol=RT)
        close(c.distances.comoving_at(got), d, 'there and back', rtol=1e-5)
    else:
        z = np.array([3., .3, 1.])
        d = np.array([r.dc(v) for v in z])
        d[2] = ch.pick([0., -3., 1e-5, d[2]], 'distance')
        fz = Frozen(d=d)
        got = c.redshifts.at_comoving(d)
        fz.check('at_comoving')
        close(c.distances.comoving_at(got), np.maximum(d, 1e-4),
              'there and back', rtol=1e-4, atol=2e-6)
    return p, form, z


def file_body(ch):
    """Registered cosmologies are those of their files."""
    name = ch.pick(NAMES, 'name')
    c = M.predefined[name]
    conf = json.loads((DATA / f'{name}.json').read_text())
    need(c.name == conf['name'], 'name %s', c.name)
    for k, v in conf['parameters'].items():
        close(c.params[k].value, v, k)
    need(pathlib.Path(c.data_dir).name ==
         pathlib.Path(conf['data_dir']).name, 'data_dir %s', c.data_dir)
    rest = {k: v for k, v in conf.items()
            if k not in ('parameters', 'name', 'data_dir')}
    need(c.meta == rest, 'meta %s, expected %s', c.meta, rest)
    r = Ref(conf['parameters'])
    for q, (f, want) in table(c).items():
        z = 1.5
        close(f(z), want(r, z), q, rtol=RT)
    need(M.predefined[name] is c, 'loaded twice')
    return name


def reject_body(ch):
    k = ch.pick(['suffix', 'suffix 2', 'suffix 3', 'missing', 'no parameter', 'no name'], 'case')
    with Scratch() as d:
        f = d / {'suffix': 'x.txt', 'suffix 2': 'x.json.txt',
                 'suffix 3': 'x.JSON'}.get(k, 'x.json')
        p = dict(SETS[1])
        conf = dict(name='a', data_dir='b', parameters=p)
        if k == 'no parameter':
            del p['omega_m0']
        if k == 'no name':
            del conf['name']
        if k != 'missing':
            f.write_text(json.dumps(conf))
        st, e = outcome(M.LambdaCDM.from_conf_file, f)
    want = dict(suffix=AssertionError, missing=FileNotFoundError).get(
        k.split(' ')[0], KeyError)
    need(st == 'err' and isinstance(e, want), '%s: %s %r', k, st, e)
    return k


class Registry(System):
    """Histories of look-ups in a fresh registry."""

    @staticmethod
    def inits():
        return ['fresh']

    def __init__(self, init):
        self.r = M._Predefined()
        self.seen = {n: self.r['%s' % n] for n in ('tng', 'eagle')}
        self.own = {}

    def ops(self):
        out = [('get', n) for n in ('tng', 'eagle', '_737', 'elucid')]
        out += [('bad', 'nowhere'), ('bad', 'TNG'), ('put', 'mine'), ('put', 'tng'),
                ('load', 'tng'), ('get', 'mine')]
        return out

    def canon(self):
        return (tuple(sorted(self.seen)), tuple(sorted(self.own)))

    def apply(self, op):
        k, n = op
        if k == 'put':
            m = M.LambdaCDM.from_parameters(SETS[2], name=n)
            self.r.put_cache(n, m)
            self.seen[n] = m
            self.own[n] = 1
        elif k == 'load':
            m = self.r.load(n)
            need(m is not self.seen[n] and m.name == n, 'loaded model')
        else:
            st, v = outcome(self.r.__getitem__, n)
            if k == 'bad' or (n == 'mine' and n not in self.seen):
                need(st == 'err' and isinstance(v, FileNotFoundError),
                     'unknown %s: %s %r', n, st, v)
            elif n in self.seen:
                need(st == 'ok' and v is self.seen[n], 'look-up of %s: not '
                     'the registered model (%r)', n, v)
            else:
                need(st == 'ok', '%s: %r', n, v)
                conf = json.loads((DATA / f'{n}.json').read_text())
                close(v.hubble, conf['parameters']['hubble'], n)
                need(v.name == conf['name'], 'name of %s: %s', n, v.name)
                self.seen[n] = v
        # everything registered is still the same object
        for a, b in self.seen.items():
            need(self.r[a] is b, 'model %s was replaced', a)
        ms = self.r.to_simple_repr()['models']
        need(set(ms) == set(self.seen), 'listed models %s, expected %s',
             sorted(ms), sorted(self.seen))
        return k


class Params(System):
    """Histories of a parameter list."""

    @staticmethod
    def inits():
        return ['two', 'one']

    def __init__(self, init):
        src = [('a', np.array(1.)), ('b', np.array([2., 3.]))]
        if init == 'one':
            src = src[:1]
        self.src = src
        self.ps = [Param(v, name=k) for k, v in src]
        mine = list(self.ps)
        self.l = ParamList(mine if init == 'one' else iter(self.ps))
        mine.clear()
        self.m = [(k, np.array(v)) for k, v in src]

    def ops(self):
        n = len(self.m)
        out = [('set', tuple(10. * i + 7 for i in range(n))),
               ('set', tuple(-1. for _ in range(n))), ('short',),
               ('value', 0, 5.), ('value', -1, 6.), ('get', 'a'),
               ('get', 'zz'), ('get', 0), ('get', -1), ('get', 9)]
        out += [('put', i, nm) for i in range(n) for nm in ('a', 'c')]
        return out

    def canon(self):
        return tuple((k, tuple(np.ravel(v))) for k, v in self.m)

    def apply(self, op):
        k = op[0]
        if k == 'set':
            self.l.set_values(op[1])
            self.m = [(n, np.full_like(v, x))
                      for (n, v), x in zip(self.m, op[1])]
        elif k == 'short':
            need(outcome(self.l.set_values, [1.] * (len(self.m) + 1))[0] ==
                 'err', 'too many values')
        elif k == 'value':
            self.l[op[1]].set_value(op[2])
            n, v = self.m[op[1]]
            self.m[op[1]] = (n, np.full_like(v, op[2]))
        elif k == 'get':
            st, v = outcome(self.l.__getitem__, op[1])
            names = [n for n, _ in self.m]
            if isinstance(op[1], str):
                if op[1] not in names:
                    need(st == 'err' and isinstance(v, KeyError),
                         'no parameter %s: %s', op[1], st)
                else:
                    # of equal names, the last one
                    i = len(names) - 1 - names[::-1].index(op[1])
                    need(st == 'ok' and v is self.ps[i], 'parameter %s',
                         op[1])
            elif op[1] >= len(names):
                need(st == 'err' and isinstance(v, IndexError), 'index')
            else:
                need(st == 'ok' and v is self.ps[op[1]], 'parameter %s',
                     op[1])
        else:
            q = Param(4.5, name=op[2])
            self.l[op[1]] = q
            self.ps[op[1]] = q
            self.m[op[1]] = (op[2], np.array(4.5))
        need(len(self.l) == len(self.m), 'length')
        need([p.name for p in self.l] == [n for n, _ in self.m], 'names %s',
             [p.name for p in self.l])
        need(all(a is b for a, b in zip(self.l, self.ps)), 'parameters')
        for v, (n, w) in zip(self.l.values, self.m):
            eq(v, w, f'value of {n}')
        r = self.l.to_simple_repr()
        need(r == [dict(name=n, value=w.tolist()) for n, w in self.m],
             'repr %s', r)
        names = [n for n, _ in self.m]
        for n in set(names):
            i = len(names) - 1 - names[::-1].index(n)
            need(self.l[n] is self.ps[i], 'name %s after %s', n, op)
        eq(self.src[0][1], 1., 'the array a parameter was made from')
        return k


NR = [(.6774, .3089, .0486, .9667, .8159), (.7, .3, .045, 1., .9),
      (1., 1., .05, 1., .8), (.5, .1, .1, .9, .7)]


def nr_body(ch):
    a = ch.pick([None] + NR, 'model')
    c = _planck_2015 if a is None else _FlatLambdaCDMNR(*a)
    h, om, ob, ns, s8 = a or NR[0]
    close([c.hubble, c.omega_m0, c.omega_b0, c.n_spec, c.sigma_8,
           c.omega_l0, c.baryon_fraction()],
          [h, om, ob, ns, s8, 1 - om, ob / om], 'parameters')
    z = ch.pick(ZS + [-.5, -.995, 1e7], 'z')
    e2 = om * (1 + z)**3 + 1 - om
    close([c.efunc_sqr(z), c.efunc(z), c.omega_m(z), c.omega_l(z)],
          [e2, e2**.5, om * (1 + z)**3 / e2, (1 - om) / e2], 'densities')
    close(c.big_hubble(z), H0_GYR * e2**.5, 'H', rtol=1e-5)
    close([c.z2a(z), c.a2z(1 / (1 + z))], [1 / (1 + z), z], 'scale factor')
    d = c.densities()
    r0 = 3 * (1e5 / (1e6 * PC))**2 / (8 * math.pi * G) / (1e10 * MSUN) * \
        (1e6 * PC)**3
    close([d.crit0(), d.crit(z), d.mean0(), d.mean(z)],
          [r0, r0 * e2, r0 * om, r0 * om * (1 + z)**3], 'density',
          rtol=1e-4)
    for r in (1e-3, 1., 8., 1e3):
        m = 4 / 3 * math.pi * r**3 * r0 * om
        close(d.r_to_m(r) / m, 1., f'mass in {r}', rtol=1e-4)
        close(d.m_to_r(d.r_to_m(r)), r, 'radius of mass')
    return a, z


def warm():
    d = _planck_2015.densities()
    d.crit(1.), d.mean(1.), d.m_to_r(d.r_to_m(1.)), d.crit0(), d.mean0()
    c = _planck_2015
    c.efunc_sqr(1.), c.efunc(1.), c.omega_m(1.), c.omega_l(1.)
    c.big_hubble(1.), c.z2a(1.), c.a2z(.5), c.baryon_fraction()


def scenarios(tier):
    if tier == 'thorough':
        SETS.extend(MORE)
        ZS.extend([.01, .1, 2., 20., 500.])
    n = 3 if tier == 'quick' else 4
    return [Tree(f.__name__[:-5], f) for f in (
        model_body, inverse_body, file_body, reject_body, nr_body)] + [
        Bfs('registry', Registry, n), Bfs('parameters', Params, n)]
