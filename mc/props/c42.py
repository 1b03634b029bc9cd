"""Cosmic web classification of mesh nodes and positions."""
import itertools

import numpy as np

from pyhipp.field.cubic_box import Field, TidalClassifier, TidalField
from pyhipp.field.cubic_box.cosmic_web import FieldInterpolator
from pyhipp.field.cubic_box.mesh import Mesh

from .. import layout
from ..engine import Tree
from ..h5ref import mem_file
from ..util import need, outcome, eq, close, Frozen

LEVEL = 'exploration'
RULE = ('every ordered eigenvalue triple of the alphabet on every node of a '
        'background of the four types; distinct by the case')
ASSUMPTIONS = ['eigenvalues are representable in single precision']
BOUNDS = {'quick': 'meshes of 1-3 nodes per side, 15 eigenvalue triples, 3 '
                   'thresholds, all nodes, 4 offsets around each',
          'thorough': 'the same with two special nodes'}
PAIRS = False
VALS = [-1., 0., .25, .5, 2.]
TRI = [t for t in itertools.combinations_with_replacement(VALS, 3)]
NAMES = [('void', 'v'), ('sheet', 's'), ('filament', 'f'), ('knot', 'k')]


def class_body(ch):
    n = ch.pick([1, 2, 3], 'n')
    l = ch.pick([1., 6.], 'l_box')
    th = ch.pick([None, 0., .25, -2.], 'threshold')
    nodes = list(itertools.product(range(n), repeat=3))
    bg = ch.pick([(-1., -1., -1.), (-1., .5, 2.)], 'background')
    e = np.array([bg] * n**3, dtype=float).reshape(n, n, n, 3)
    node = ch.pick(nodes, 'node')
    tri = ch.pick(TRI, 'eigenvalues')
    e[node] = tri
    if PAIRS and n == 2:
        node2 = ch.pick(nodes, 'node2')
        e[node2] = ch.pick([TRI[0], TRI[17], TRI[-1]], 'eigenvalues2')
    form = 'f8' if l == 1. else 'f4'
    ea = e.astype(form)
    fz = Frozen(ea=ea)
    m = Mesh.new(n, l)
    c = TidalClassifier(ea, m) if th is None else \
        TidalClassifier(ea, m, lam_th=th)
    t = 0. if th is None else th
    want = np.array([[[sum(v > t for v in e[i, j, k]) for k in range(n)]
                      for j in range(n)] for i in range(n)])
    eq(c.n_lams, want, 'number of collapsed axes')
    tot = 0.
    for q, (name, short) in enumerate(NAMES):
        sel = want == q
        eq(getattr(c, 'is_' + name), sel, name)
        close(getattr(c, 'f_' + name), sel.sum() / n**3, 'fraction of ' +
              name)
        tot += getattr(c, 'f_' + name)
        ref = [[i * l / n for i in p] for p in nodes if want[p] == q]
        for key in (name, short):
            g = c.grid_points_of_web_type(key)
            need(g.shape == (len(ref), 3), 'shape of grid points')
            close(sorted(map(tuple, np.asarray(g, dtype=float).tolist())),
                  sorted(map(tuple, ref)) if ref else [], 'grid points',
                  rtol=1e-6, shape=bool(ref))
    need(abs(tot - 1.) < 1e-12, 'fractions sum to %s', tot)
    off = ch.pick([0., .49, -.49, float(n), -2. * n + .3], 'offset')
    h = l / n
    xs = np.array([[(i + off) * h for i in p] for p in nodes])
    fx = Frozen(xs=xs)
    eq(c.web_type_at(xs), [want[p] for p in nodes], 'web type at positions')
    close(c.lam_at(xs), [e[p] for p in nodes], 'eigenvalues at positions',
          rtol=1e-6)
    x1 = [[xs[0, 0], xs[-1, 1], xs[0, 2]]]
    p1 = (nodes[0][0], nodes[-1][1], nodes[0][2])
    eq(c.web_type_at(x1), [want[p1]], 'mixed position')
    fx.check('web_type_at')
    fz.check('classifier')
    need(len(c.web_type_at(np.zeros((0, 3)))) == 0, 'no positions')
    ea[...] = 77.
    eq(c.n_lams, want, 'types after the input changed')
    close(c.lam_at(xs), [e[p] for p in nodes], 'eigenvalues after the input '
          'changed', rtol=1e-6)
    repr(c)
    return (n, l, th, node, tri, bg, form, off)


def forms_body(ch):
    """Finer meshes; positions of every form."""
    n, l = ch.pick([(3, 6.), (3, 6), (20, 20.), (33, 1.)], 'mesh')
    h = l / n
    g = np.indices((n, n, n))
    e = np.sort(np.stack([(g[0] * 7 + g[1] * 5 + g[2] * 3 + 2 * a) % 11 - 5.5
                          for a in range(3)], -1), -1)
    c = TidalClassifier(e, Mesh.new(n, l))
    want = (e > 0).sum(-1)
    eq(c.n_lams, want, 'number of collapsed axes')
    ii = np.array([[(3 * i + 1) % n, (7 * i) % n, (i * i + i) % n]
                   for i in range(3 * n)])
    off = ch.pick([0, 1, -2], 'box shift')
    form = ch.pick(['f8', 'f4', 'i8', 'list', 'strided'], 'form')
    if form == 'i8' and h != int(h):
        return None
    x = ii * h + .125 * h * (form != 'i8') + off * l
    x = x.tolist() if form == 'list' else np.repeat(x, 2, 1)[:, ::2] \
        if form == 'strided' else x.astype(form)
    eq(c.web_type_at(x), want[tuple(ii.T)], 'web types')
    close(c.lam_at(x), e[tuple(ii.T)], 'eigenvalues', rtol=1e-6)
    for q, (name, _) in enumerate(NAMES):
        p = c.grid_points_of_web_type(name)
        i = np.round(np.asarray(p, dtype=float) / h).astype(int)
        eq(sorted(map(tuple, i.tolist())), sorted(map(tuple, np.argwhere(
            want == q).tolist())), 'grid points')
        close(getattr(c, 'f_' + name), (want == q).mean(), 'fraction')
    return n, l, off, form


def reject_body(ch):
    m = Mesh.new(2, 1.)
    ok = np.zeros((2, 2, 2, 3))
    case = ch.pick(['shape', 'mesh', 'order', 'order2', 'name', 'xs', 'xs1'],
                   'case')
    bad = ok.copy()
    if case == 'order':
        bad[1, 0, 1] = [1, 0, 2]
    if case == 'order2':
        bad[0, 1, 1] = [0, 2, 1]
    f = {'shape': lambda: TidalClassifier(ok[..., :2], m),
         'mesh': lambda: TidalClassifier(ok, Mesh.new(3, 1.)),
         'order': lambda: TidalClassifier(bad, m),
         'order2': lambda: TidalClassifier(bad, m),
         'name': lambda: TidalClassifier(ok, m).grid_points_of_web_type('x'),
         'xs': lambda: TidalClassifier(ok, m).web_type_at(np.zeros((1, 2))),
         'xs1': lambda: TidalClassifier(ok, m).lam_at(np.zeros(3))}[case]
    need(outcome(f)[0] == 'err', '%s accepted', case)
    return case


def file_body(ch):
    """From a density to its classification through a file."""
    n = ch.pick([2, 3, 4], 'n')
    peak = ch.pick(list(itertools.product(range(n), repeat=3)), 'peak')
    th = ch.pick([None, .1], 'threshold')
    l = 5.
    m = Mesh.new(n, l)
    rho = np.full((n, n, n), .5)
    rho[peak] = 9.
    res = TidalField(r_sm=1.).run(Field.new_by_data(rho, m))
    f = mem_file()
    f.create_group('t')
    res.dump(f['t'])
    c = TidalClassifier.new_from_file(f['t']) if th is None else \
        TidalClassifier.new_from_file(f['t'], lam_th=th)
    eq(c.n_lams, (res.lam.astype('f4') > (th or 0.)).sum(-1), 'types')
    need(c.mesh.n_grids == n and c.mesh.l_box == l, 'mesh')
    # moving the peak moves the web
    c0 = TidalField(r_sm=1.).run(Field.new_by_data(
        np.roll(rho, [-i for i in peak], (0, 1, 2)), m))
    close(np.roll(c0.lam, peak, (0, 1, 2)), res.lam, 'shifted field',
          atol=1e-8)
    for key in ('delta_x', 'delta_sm_x'):
        it = FieldInterpolator.new_density_field_from_file(f['t'], key)
        h = l / n
        xs = np.array([[0., 0., 0.], [h * i for i in peak],
                       [l * 2, -l, l]])
        d = 1 + getattr(res, key)
        close(it.value_at(xs), [d[0, 0, 0], d[peak], d[0, 0, 0]],
              'interpolated density')
    it = FieldInterpolator.new_density_field_from_file(f['t'])
    close(it.value_at(xs), 1 + np.array([res.delta_x[0, 0, 0],
                                         res.delta_x[peak],
                                         res.delta_x[0, 0, 0]]), 'density')
    f.close()
    return (n, peak, th)


def warm():
    m = Mesh.new(2, 1.)
    c = TidalClassifier(np.zeros((2, 2, 2, 3)), m)
    c.web_type_at(np.zeros((1, 3)))
    c.lam_at(np.zeros((1, 3)))
    c.grid_points_of_web_type('v')
    for x in (np.zeros((1, 3), 'f4'), np.zeros((1, 3), 'i8'),
              np.zeros((1, 6))[:, ::2]):
        c.web_type_at(x), c.lam_at(x)
    repr(c)
    F = Field.new_by_data(np.ones((2, 2, 2)), m)
    TidalField().run(F)
    FieldInterpolator(F).value_at(np.zeros((1, 3)))


def memory():
    e = np.sort(np.random.RandomState(3).normal(size=(2, 2, 2, 3)))
    x = np.array([[.1, .9, 1.7], [2.2, .3, 1.], [1.1, 1.1, 2.9]])

    def lams(e_, x_):
        return TidalClassifier(e_, Mesh.new(2, 2.)).lam_at(x_)

    def types(e_, x_):
        return TidalClassifier(e_, Mesh.new(2, 2.)).web_type_at(x_)
    return layout.tree({'lam': (lams, e, x), 'type': (types, e, x)},
                       jit=('strided', 'part of a larger array'))


def scenarios(tier):
    global PAIRS
    PAIRS = tier != 'quick'
    return [Tree(f.__name__[:-5], f) for f in (
        class_body, forms_body, reject_body, file_body)] + [memory()]
