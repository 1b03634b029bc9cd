"""Neighbour searches in a periodic box."""
import itertools
import math

import numba
import numpy as np
from numba.experimental import jitclass

from pyhipp.field.neighbor import kd_mesh, kd_tree

from .. import layout
from ..engine import Tree
from ..util import need, outcome, eq, close, Frozen

LEVEL = 'exploration'
RULE = ('every point set, query and radius of the alphabets against all '
        'periodic pair distances; distinct by the case')
ASSUMPTIONS = ['the mesh search may deliver points beyond the radius, as '
               'documented']
BOUNDS = {'quick': '1-3 points out of 10 positions (1-3 dimensions), 10 '
                   'queries, 6 radii, meshes of 1-5 cells; 4 clouds of 200-600 '
                   'points, meshes of up to 16 cells a side; lattice points at exactly the '
                   'radius',
          'thorough': '1-4 points'}
NP = 3
PTS = [(0., 0., 0.), (3.75, 3.75, 3.75), (1., 2., 3.), (1., 2., 3.25),
       (3.999999, 0., 2.), (.5, .5, .5), (2., 2., 2.), (1., 2., 3.),
       (2.5, .125, 3.5), (0., 3.9, 1.1)]
L = 4.
RS = [1e-9, .25, .5, 1., 1.9, 3.3]


def pdist(a, b, l):
    s = 0.
    for u, v in zip(a, b):
        d = abs(u - v) % l
        d = min(d, l - d)
        s += d * d
    return math.sqrt(s)


@jitclass
class Recorder:
    xs: numba.float64[:, :]
    rs: numba.float64[:]
    who: numba.int64[:]
    got: numba.float64[:, :]
    n: int

    def __init__(self, xs, rs, size):
        self.xs = xs
        self.rs = rs
        self.who = np.empty(size, dtype=np.int64)
        self.got = np.empty((size, 3), dtype=np.float64)
        self.n = 0

    def on(self, i, x_ngbs):
        for x in x_ngbs:
            if self.n < len(self.who):
                self.who[self.n] = i
                self.got[self.n] = x
            self.n += 1


def points(ch):
    n = ch.pick(list(range(0, NP + 1)), 'n')
    if n <= 2:
        idx = ch.many(list(range(len(PTS))), n, 'p')
    else:
        s = ch.pick(list(range(len(PTS))), 'first')
        st = ch.pick([1, 3], 'step')
        idx = [(s + st * i) % len(PTS) for i in range(n)]
    return [PTS[i] for i in idx]


def mesh_body(ch):
    n = ch.pick([1, 2, 3, 4, 5], 'n_grids')
    pts = points(ch)
    r = ch.pick(RS, 'radius')
    scale = ch.pick([1., .3], 'scale')
    l = L * scale
    mesh = kd_mesh._PE3Mesh(l, n)
    xs = np.array(pts).reshape(-1, 3) * scale
    q = np.array(PTS + [(-.5, 4.25, 9.)]) * scale
    rs = np.full(len(q), r * scale)
    rs[1::2] *= .75
    fz = Frozen(xs=xs, q=q, rs=rs)
    t = kd_mesh._PE3_from_meshing_points(mesh, xs)
    size = len(pts) * len(q) * (n**3 + 1)
    for call in range(2):
        rec = Recorder(q, rs, size)
        t.query_points(rec)
        got = {}
        for w, x in zip(rec.who[:rec.n].tolist(), rec.got[:rec.n].tolist()):
            got.setdefault(w, []).append(tuple(x))
        have = [tuple(x) for x in xs.tolist()]
        for i in range(len(q)):
            g = got.get(i, [])
            for p in set(g) | set(have):
                k = have.count(p)
                need(p in have, 'delivered %s, not a point', p)
                c = g.count(p)
                need(c <= k, '%s delivered %s times for query %s', p, c,
                     q[i].tolist())
                if pdist(p, q[i], l) <= rs[i] * (1 - 1e-12):
                    need(c == k, '%s (distance %s) not delivered for query '
                         '%s, radius %s, %s cells', p, pdist(p, q[i], l),
                         q[i].tolist(), rs[i], n)
    fz.check('query_points')
    return (n, tuple(pts), r, scale)


def cloud(kind):
    """Many points: a lattice, dense clumps, and clumps across the edges."""
    g = np.array(np.meshgrid(*[np.arange(6.)] * 3, indexing='ij')).reshape(
        3, -1).T * (L / 6)
    c = np.array([[math.sin(7. * i), math.cos(3. * i), math.sin(i * i)]
                  for i in range(300)]) * .3
    if kind == 'lattice':
        return g
    if kind == 'clump':
        return 1.5 + c
    if kind == 'edge clump':
        return np.mod(c, L)
    return np.concatenate([g, np.mod(c + [0., 2., 3.], L), g[::3]])


def many_body(ch):
    """Crowded and empty cells; many points and queries at once."""
    kind = ch.pick(['lattice', 'clump', 'edge clump', 'mixed'], 'points')
    n = ch.pick([1, 4, 9, 16], 'n_grids')
    r = ch.pick([.1, .7, 2.], 'radius')
    xs = cloud(kind)
    q = cloud(ch.pick(['clump', 'mixed'], 'queries'))[::5]
    q = np.concatenate([q, q[:3]])
    d = np.abs(q[:, None] - xs[None])
    d = np.minimum(d, L - d)
    d = np.sqrt((d * d).sum(-1))
    far = np.abs(d - r) > 1e-9
    t = kd_mesh._PE3_from_meshing_points(kd_mesh._PE3Mesh(L, n), xs)
    rec = Recorder(q, np.full(len(q), r), len(q) * len(xs))
    t.query_points(rec)
    need(rec.n <= len(q) * len(xs), 'points delivered repeatedly')
    row = {}
    for j, p in enumerate(map(tuple, xs.tolist())):
        row.setdefault(p, []).append(j)
    got = np.zeros(d.shape, dtype=int)
    for w, x in zip(rec.who[:rec.n].tolist(), rec.got[:rec.n].tolist()):
        need(tuple(x) in row, 'delivered %s, not a point', x)
        got[w, row[tuple(x)][0]] += 1
    for js in row.values():
        k = got[:, js[0]]
        need(np.all(k <= len(js)), 'a point delivered repeatedly')
        near = (d[:, js[0]] <= r) & far[:, js[0]]
        need(np.all(k[near] == len(js)), 'neighbours of queries %s not '
             'delivered', np.nonzero(near & (k < len(js)))[0][:5].tolist())
    k = kd_tree.PE(xs, L)
    for i in range(0, len(q), 4):
        ids, ds = k.query_r_1(q[i], r, return_d=True)
        need(len(set(ids.tolist())) == len(ids), 'neighbours repeated')
        sel = np.zeros(len(xs), bool)
        sel[ids] = True
        need(np.all(sel[far[i]] == (d[i] <= r)[far[i]]), 'tree: %d of %d '
             'neighbours of %s', len(ids), (d[i] <= r).sum(), q[i])
        close(ds, d[i][ids], 'distances', atol=1e-9)
        eq(np.sort(k.query_r_1(q[i], r)), np.sort(ids), 'without distances')
    return kind, n, r, len(q)


def edge_body(ch):
    """Points at exactly the radius: all numbers are exact."""
    l = ch.pick([8., 4.], 'l_box')
    n = ch.pick([1, 2, 4, 8], 'n_grids')
    u = ch.pick([1., .5], 'unit')
    r = ch.pick([1, 2, 3, 5], 'radius') * u
    q0 = [ch.pick([0., .5, 1., 3., 3.5], f'q{a}') for a in range(2)] + [1.]
    a = np.arange(0, l, u)
    xs = np.stack(np.meshgrid(a, a, a, indexing='ij'), -1).reshape(-1, 3)
    if q0[0] % u or q0[1] % u:
        return None
    d = np.abs(xs - np.array(q0))
    d = np.minimum(d, l - d)
    near = (d * d).sum(-1) <= r * r
    t = kd_mesh._PE3_from_meshing_points(kd_mesh._PE3Mesh(l, n), xs)
    rec = Recorder(np.array([q0]), np.array([r]), len(xs))
    t.query_points(rec)
    need(rec.n <= len(xs), 'points delivered repeatedly')
    got = {tuple(x) for x in rec.got[:rec.n].tolist()}
    need(len(got) == rec.n, 'points delivered repeatedly')
    miss = [p for p in xs[near].tolist() if tuple(p) not in got]
    need(not miss, '%d points at or within %s of %s not delivered: %s',
         len(miss), r, q0, miss[:3])
    k = kd_tree.PE(xs, l)
    ids, ds = k.query_r_1(q0, r, return_d=True)
    need(sorted(ids.tolist()) == np.nonzero(near)[0].tolist(),
         'tree: %d neighbours, expected %d', len(ids), near.sum())
    close(ds, np.sqrt((d * d).sum(-1))[ids], 'distances', atol=1e-12)
    return l, n, u, r, tuple(q0)


def cell_body(ch):
    n = ch.pick([1, 2, 3, 5], 'n_grids')
    l = ch.pick([1., 7.], 'l_box')
    m = kd_mesh._PE3Mesh(l, n)
    h = l / n
    f = [-.25, .125, .5, .75 + n]
    p = [ch.pick(list(range(-1, n + 1)), f'i{a}') for a in range(3)]
    t = ch.pick(f, 'offset')
    t = [t, .5, .25]
    x = [(i + o) * h for i, o in zip(p, t)]
    want = [math.floor(i + o) for i, o in zip(p, t)]
    eq(m.x2xi_3(np.array(x)), want, 'cell')
    need([m.x2xi_1(v) for v in x] == want, 'cell')
    w = [v % n for v in want]
    need(m.x2xi_f(np.array(x)) == (w[0] * n + w[1]) * n + w[2], 'flat cell')
    xs = np.array([x, [0.] * 3, [h * 1.5] * 3])
    fl, args = m.argsort(xs)
    eq(fl, [m.x2xi_f(v) for v in xs], 'flat cells')
    need(sorted(args.tolist()) == [0, 1, 2] and
         all(a <= b for a, b in zip(fl[args], fl[args][1:])), 'sort order')
    return (n, l, tuple(p), t[0])


def tree_body(ch):
    nd = ch.pick([1, 2, 3], 'dims')
    pts = points(ch)
    if not pts:
        return None
    r = ch.pick(RS, 'radius')
    how = ch.pick(['default', 'options', 'workers'], 'options')
    xs = np.array(pts)[:, :nd].copy()
    fz = Frozen(xs=xs)
    kw = {'default': {}, 'options': dict(copy_data=False, balanced_tree=False,
                                         compact_nodes=False),
          'workers': dict(n_workers=2)}[how]
    t = kd_tree.PE(xs, L, **kw)
    repr(t)
    for q in PTS:
        q = list(q[:nd])
        want = {}
        for i, p in enumerate(pts):
            d = pdist(p[:nd], q, L)
            if d <= r:
                want[i] = d
        x = np.array(q) if how != 'default' else q
        ids = t.query_r_1(x, r)
        need(ids.dtype == np.int64, 'index type')
        need(sorted(ids.tolist()) == sorted(want), 'neighbours of %s within '
             '%s: %s, expected %s', q, r, ids.tolist(), sorted(want))
        ids, ds = t.query_r_1(x, r, return_d=True)
        need(sorted(ids.tolist()) == sorted(want), 'neighbours with '
             'distances')
        close(ds, [want[i] for i in ids.tolist()], 'distances', atol=1e-9)
    fz.check('PE')
    if how == 'default':
        xs[...] = 0.            # copied by default
        q = PTS[2][:nd]
        want = [i for i, p in enumerate(pts) if pdist(p[:nd], q, L) <= r]
        need(sorted(t.query_r_1(q, r).tolist()) == want, 'neighbours after '
             'the input changed')
    return (nd, tuple(pts), r, how)


def reject_body(ch):
    v = ch.pick([-.1, L, 5.], 'coordinate')
    a = ch.pick([0, 1, 2], 'axis')
    x = [1., 1., 1.]
    x[a] = v
    t = kd_tree.PE(np.ones((2, 3)), L)
    need(outcome(t.query_r_1, x, .5)[0] == 'err', 'query outside of the box')
    o = outcome(kd_tree.PE, np.array([x, [0.] * 3]), L)
    if v < 0 or v > L:
        need(o[0] == 'err', 'point outside of the box')
    return (v, a)


def warm():
    m = kd_mesh._PE3Mesh(1., 2)
    t = kd_mesh._PE3_from_meshing_points(m, np.zeros((1, 3)))
    t.query_points(Recorder(np.zeros((1, 3)), np.ones(1), 9))
    m.x2xi_1(1.), m.x2xi_3(np.zeros(3)), m.x2xi_f(np.zeros(3))
    m.argsort(np.zeros((1, 3)))


def memory():
    x = np.array([[.1, .9, 1.7], [2.2, .3, 1.], [1.1, 1.1, 2.9]])

    def near(x_, q_):
        i, d = kd_tree.PE(x_, 3., copy_data=False).query_r_1(
            q_, 1.5, return_d=True)
        s = np.argsort(i)
        return i[s], d[s]
    return layout.tree({'tree': (near, x, np.array([.2, .1, 2.8]))})


def scenarios(tier):
    global NP
    NP = 3 if tier == 'quick' else 4
    return [Tree(f.__name__[:-5], f) for f in (
        mesh_body, many_body, edge_body, cell_body, tree_body, reject_body)] + [memory()]
