"""Meshes, cloud-in-cell assignment, periodic interpolation, density dumps."""
import itertools
import math

import numpy as np

from pyhipp.field.cubic_box import DensityField, Field, _LinearShapeFn
from pyhipp.field.cubic_box.cosmic_web import FieldInterpolator
from pyhipp.field.cubic_box.mesh import Mesh

from .. import layout
from ..engine import Bfs, System, Tree
from ..h5ref import mem_file
from ..util import need, outcome, eq, close, Frozen, rnd

LEVEL = 'model_checking'
ASSUMPTIONS = ['finite positions']
BOUNDS = {'quick': 'one point at every position of a 7-position menu per '
                   'axis on meshes of 1-4 cells; all histories of depth 3 '
                   'over two fields and three groups of a file',
          'thorough': 'ten positions per axis; depth 4'}
POS = [0., .5, 1., 1.25, -.3, 2.9999, 7.1]     # in cells
MORE = [-4., 3., .001]
NPOS = 7
MESHES = [(1, 2.), (2, 1.), (3, .75), (4, 10.)]


def axis_weights(x, n):
    """Weight of each node for a position in cells (periodic images)."""
    w = [0.] * n
    for i in range(int(math.floor(x)) - 1, int(math.floor(x)) + 3):
        w[i % n] += max(0., 1. - abs(x - i))
    return w


def cic(pts, wts, n):
    d = np.zeros((n, n, n))
    for p, w in zip(pts, wts):
        a = [axis_weights(v, n) for v in p]
        d += w * np.einsum('i,j,k->ijk', *a)
    return d


def point_body(ch):
    n, l = ch.pick(MESHES, 'mesh')
    h = l / n
    p = ch.many((POS + MORE)[:NPOS], 3, 'x')
    w = ch.pick([None, 2.5, -1.], 'weight')
    f = DensityField(l, n)
    x = np.array([p]) * h
    fz = Frozen(x=x)
    if w is None:
        f.add(x)
    else:
        f.add(x, np.array([w]))
    fz.check('add')
    want = cic([p], [1. if w is None else w], n)
    close(f.data, want, f'assigned density of {p}', atol=1e-9)
    need(f.data.shape == (n, n, n), 'shape')
    # the interpolation is the adjoint of the assignment
    g = np.arange(n**3, dtype=float).reshape(n, n, n)**1.5 - 3
    F = Field.new_by_data(g, Mesh.new(n, l))
    got = FieldInterpolator(F).value_at(x)
    close(got, [float((cic([p], [1.], n) * g).sum())],
          f'interpolated value at {p}', atol=1e-8)
    return (n, tuple(p), w)


def batch_body(ch):
    n, l = ch.pick(MESHES[1:3], 'mesh')
    h = l / n
    k = ch.pick([0, 2, 3], 'points')
    pts = [[POS[(i + j * 2 + s) % 7] for j in range(3)]
           for i, s in enumerate(ch.many([0, 3], k, 's'))]
    form = ch.pick(['f8', 'f4', 'strided', 'i8', 'i4'], 'type')
    weighted = ch.pick([None, 'f8', 'i8'], 'weights')
    x = np.array(pts).reshape(k, 3) * h
    if form == 'f4':
        x = x.astype('f4')
        pts = (x.astype(float) / h).tolist()
    elif form == 'strided':
        x = np.asfortranarray(x)
    elif form != 'f8':
        x = np.round(x).astype(form)
        pts = (x / h).tolist()
    w = None if weighted is None else \
        (np.array([2., .5, 3.][:k]) * 2).astype(weighted)
    f = DensityField(l, n)
    f.add(x, w)
    close(f.data, cic(pts, [1.] * k if w is None else w.tolist(), n),
          'assigned density', atol=1e-9)
    tot = k if w is None else w.sum()
    need(abs(f.data.sum() - tot) < 1e-9, 'total %s for weight %s',
         f.data.sum(), tot)
    g = np.random.RandomState(3).rand(n, n, n)
    F = Field.new_by_data(g, Mesh.new(n, l))
    got = FieldInterpolator(F).value_at(x)
    close(got, [(cic([p], [1.], n) * g).sum() for p in pts], 'interpolated',
          atol=1e-9)
    nodes = np.array(list(itertools.product(range(n), repeat=3)), dtype=float)
    close(FieldInterpolator(F).value_at(nodes * h), g.ravel(),
          'values at the nodes')
    return (n, k, form, weighted, str(pts))


def mesh_body(ch):
    n = ch.pick([1, 2, 3, 4, 7, 32], 'n_grids')
    l = ch.pick([1., 2.5, 100], 'l_box')
    m = Mesh.new(n, l)
    h = l / n
    need(m.n_grids == n and m.l_box == l, 'mesh')
    close([m.l_grid, m.total_n_grids, m.volume, m.cell_volume],
          [h, n**3, l**3, h**3], 'mesh geometry')
    repr(m)
    f = Field.new_zeros(m)
    need(f.shape == (n, n, n) and f.n_dims == 3 and not f.data.any()
         and f.dtype == np.float64, 'zero field')
    need(f.mesh.n_grids == n and f.mesh.l_box == l, 'mesh of the field')
    d = Mesh.new() if n == 32 else Mesh.new(n)
    need(d.n_grids == n and d.l_box == 1. and d.l_grid == 1. / n,
         'default mesh')
    if n == 32:
        d = Mesh.new(l_box=l)
        need(d.n_grids == 32 and d.l_box == l, 'default number of cells')
    for i in range(-n - 1, 2 * n + 2):
        for t in (-.49, -.25, 0., .25, .49):
            need(m._impl.x_to_xi((i + t) * h) == i % n, 'nearest node of %s',
                 (i + t) * h)
    xs = np.array([(i + .25) * h for i in (0, n, -1)])
    eq(m._impl.x_to_xi_nd(xs), [0, 0, (n - 1) % n], 'nearest nodes')
    far = [2**33 + 1, 3 * 2**31, -2**33 - 2, 2**31, -2**31 - 1, 2**32]
    xs = np.array([[(i + .25) * h, (i - .25) * h] for i in far])
    eq(m._impl.x_to_xi_nd(xs), [[i % n] * 2 for i in far], 'nearest nodes')
    for x, i in zip(xs[:, 0], far):
        need(m._impl.x_to_xi(x) == i % n, 'nearest node of %s', x)
    d = np.arange(n**3, dtype=float).reshape(n, n, n)
    a = Field.new_by_data(d, m)
    need(np.shares_memory(a.data, d), 'field copies its data')
    c = a.copied()
    c.data[...] = -5.
    eq(d, np.arange(n**3, dtype=float).reshape(n, n, n), 'original of a copy')
    need(c.mesh.l_box == l, 'mesh of a copy')
    need(outcome(Field.new_by_data, np.zeros((n, n, n + 1)), m)[0] == 'err'
         and outcome(Field.new_by_data, np.zeros((n + 1,) * 3), m)[0] ==
         'err', 'wrong shape accepted')
    return (n, l)


def shape_body(ch):
    n, l = ch.pick(MESHES + [(8, 3.)], 'mesh')
    h = l / n
    s = _LinearShapeFn(Mesh.new(n, l)._impl)
    x = ch.pick([0., .25, -.5, 1., -1.5, 30., -1e-17, 1e9 + .5], 'x')
    close(s.shape_at_xi(x), max(0., 1 - abs(x)), 'shape')
    close(s.shape_at_x(x * h), max(0., 1 - abs(x)), 'shape')
    k = ch.pick([0., 1., -2., 3., .5, .05, -1e-3], 'k')
    t = math.pi * k / n
    want = 1. if k == 0 else (math.sin(t) / t)**2
    close(s.shape_at_ki(k), want, 'transform', atol=1e-14)
    close(s.shape_at_k(k * 2 * math.pi / l), want, 'transform', atol=1e-14)
    t1 = math.pi / n
    w1 = (math.sin(t1) / t1)**2
    close(s.shape_at_ki_nd(np.array([k, 0., 1.])), want * w1, 'transform',
          atol=1e-14)
    il, ir, wl, wr = s.weights_at(x * h)
    w = [0.] * n
    w[il] += wl
    w[ir] += wr
    close(w, axis_weights(x, n), 'weights')
    return (n, l, x, k)


N, L = 3, .75
H = L / N
BATCH = {'one': ([[0., .5, 1.25]], None), 'neg': ([[1., 1.5, .25]], [-2.]),
         'two': ([[2.9999, -.3, 0.], [1., 1., .5]], [2., .25]),
         'none': ([], None)}


class S(System):
    """Two fields, three groups of one file."""

    @staticmethod
    def inits():
        return ['fresh']

    def __init__(self, init):
        self.h = mem_file()
        for k in 'pqr':
            self.h.create_group(k)
        self.f = [DensityField(L, N), DensityField(L, N)]
        self.m = [np.zeros((N,) * 3), np.zeros((N,) * 3)]
        self.g = {k: None for k in 'pqr'}
        self.seq = 0

    def ops(self):
        return [('add', i, b) for i in (0, 1) for b in BATCH] + \
            [('dump', i, g, fl) for i in (0, 1) for g in 'pq'
             for fl in ('x', 'ac', None)] + \
            [('join', src, fl) for src in ('p', 'q', 'pq', 'qp', 'pp')
             for fl in ('x', 'ac', None)] + [('load', g) for g in 'pqr']

    def canon(self):
        return (tuple(rnd(m) for m in self.m),
                tuple((k, None if v is None else rnd(v))
                      for k, v in self.g.items()))

    def apply(self, op):
        k = op[0]
        if k == 'add':
            p, w = BATCH[op[2]]
            self.f[op[1]].add(np.array(p).reshape(-1, 3) * H,
                              None if w is None else np.array(w))
            self.m[op[1]] = self.m[op[1]] + cic(p, w or [1.] * len(p), N)
        elif k == 'dump':
            _, i, g, fl = op
            o = outcome(self.f[i].dump, self.h[g], *([fl] if fl else []))
            self.store(g, fl, self.m[i], o)
        elif k == 'join':
            _, src, fl = op
            gs = [self.h[g] for g in src]
            o = outcome(DensityField.join_dumps,
                        iter(gs) if fl == 'ac' else gs, self.h['r'],
                        *([fl] if fl else []))
            if any(self.g[g] is None for g in src):
                need(o[0] == 'err' or src[0] in src and
                     self.g[src[0]] is None, 'joined a missing field')
                if o[0] == 'ok':        # an empty first group
                    need(all(self.g[g] is None for g in src),
                         'joined a missing field')
                return self.check()
            self.store('r', fl, sum(self.g[g] for g in src), o)
        else:
            g = op[1]
            o = outcome(DensityField.load, self.h[g])
            if self.g[g] is None:
                need(o[0] == 'err', 'loaded a missing field')
            else:
                need(o[0] == 'ok', 'load: %r', o[1])
                close(o[1].data, self.g[g], 'loaded field', atol=1e-12)
                need(o[1].mesh.n_grids == N and o[1].mesh.l_box == L,
                     'loaded mesh')
                o[1].data[...] = 9.
        self.check()

    def store(self, g, fl, m, o):
        if fl != 'ac' and self.g[g] is not None:
            need(o[0] == 'err', 'exclusive dump over an existing field')
        else:
            need(o[0] == 'ok', 'dump: %r', o[1])
            self.g[g] = m.copy()

    def check(self):
        for i in (0, 1):
            close(self.f[i].data, self.m[i], f'field {i}', atol=1e-12)
        for g, v in self.g.items():
            if v is None:
                need(len(self.h[g]) == 0, 'group %s is not empty', g)
                continue
            d = self.h[g].load()
            need(set(d.keys()) == {'data', 'l_box', 'n_grids'},
                 'dumped names %s', list(d.keys()))
            close(d['data'], v, f'dump in {g}', atol=1e-12)
            need(d['l_box'] == L and d['n_grids'] == N, 'dumped mesh')

    def close(self):
        self.h.close()


def reject_body(ch):
    f = DensityField(1., 2)
    bad = ch.pick([(np.zeros((2, 2)), None), (np.zeros(3), None),
                   (np.zeros((2, 3)), np.ones(3)),
                   (np.zeros((2, 3)), np.ones((2, 1)))], 'arguments')
    need(outcome(f.add, *bad)[0] == 'err', 'accepted')
    need(not f.data.any(), 'a refused call changed the field')
    return str([getattr(b, 'shape', None) for b in bad])


def warm():
    f = DensityField(1., 2)
    for x in (np.zeros((1, 3)), np.zeros((1, 3), dtype='f4'),
              np.asfortranarray(np.zeros((2, 3)))):
        F = Field.new_by_data(np.zeros((2, 2, 2)), Mesh.new(2, 1.))
        FieldInterpolator(F).value_at(x)
        for w in (None, np.ones(len(x)), np.ones(len(x), dtype='i8')):
            f.add(x, w)
    m = Mesh.new(2, 100)
    repr(m), m.volume, m.cell_volume, m.total_n_grids
    m._impl.x_to_xi(1.), m._impl.x_to_xi_nd(np.zeros(3))
    F = Field.new_zeros(m)
    F.shape, F.dtype, F.n_dims, F.copied()
    s = _LinearShapeFn(m._impl)
    s.shape_at_xi(1.), s.shape_at_x(1.), s.shape_at_ki(1.)
    s.shape_at_k(1.), s.shape_at_ki_nd(np.zeros(3)), s.weights_at(1.)


def memory():
    x = np.array([[.1, .9, 1.7], [2.2, .3, 1.], [1.1, 1.1, 2.9]])
    w = np.array([2., .5, 3.])
    g = np.random.RandomState(3).rand(3, 3, 3)

    def assign(x_, w_=None):
        f = DensityField(3., 3)
        f.add(x_, w_)
        return f.data
    return layout.tree({
        'assign': (assign, x), 'assign weighted': (assign, x, w),
        'interpolate': (lambda x_: FieldInterpolator(Field.new_by_data(
            g, Mesh.new(3, 3.))).value_at(x_), x),
        'interpolate a field': (lambda g_: FieldInterpolator(
            Field.new_by_data(g_, Mesh.new(3, 3.))).value_at(x), g),
    }, jit=('strided', 'part of a larger array'))


def scenarios(tier):
    global NPOS
    NPOS = 7 if tier == 'quick' else 10
    return [Tree(f.__name__[:-5], f) for f in (
        point_body, batch_body, mesh_body, shape_body, reject_body)] + [memory(), 
        Bfs('dumps', S, 3 if tier == 'quick' else 4)]
