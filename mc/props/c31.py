"""Point groups of the square and the cube."""
import numpy as np

from pyhipp.group_theory import point_group as pg

from ..engine import Bfs, System, Tree
from ..util import need, outcome, eq, close, Frozen

LEVEL = 'model_checking'
ASSUMPTIONS = []
BOUNDS = {'quick': 'all products of up to 3 elements of both groups; all '
                   'combinations of up to 3 generating groups',
          'thorough': 'all products of up to 5 elements'}
NAMES = {'cubic': (3, 48), '3d': (3, 48), 'square': (2, 8), '2d': (2, 8)}
BASE = {3: [pg.RotationXY, pg.RotationOther, pg.ReflectionX],
        2: [pg.Rotation2DXY, pg.Reflection2DX]}
SIZE = {'RotationXY': 4, 'RotationOther': 6, 'ReflectionX': 2,
        'Rotation2DXY': 4, 'Reflection2DX': 2}


def signed_perms(n):
    import itertools
    out = set()
    for p in itertools.permutations(range(n)):
        for s in itertools.product([1, -1], repeat=n):
            m = np.zeros((n, n), dtype=int)
            for i in range(n):
                m[i, p[i]] = s[i]
            out.add(tuple(m.ravel()))
    return out


FULL = {n: signed_perms(n) for n in (2, 3)}


def key(m):
    m = np.asarray(m, dtype=float)
    r = np.round(m)
    need(np.allclose(m, r, atol=1e-12), 'matrix %s', m.tolist())
    return tuple(int(v) for v in r.ravel())


def apply_ref(m, x):
    """m . v for each row of x, in plain Python."""
    return [[sum(m[i][j] * v[j] for j in range(len(v)))
             for i in range(len(v))] for v in x]


class S(System):
    """A word over the group, as one operation and as a sequence."""

    @staticmethod
    def inits():
        return ['cubic', 'square']

    def __init__(self, name):
        self.name = name
        self.g = pg.Group.create(name)
        self.n = NAMES[name][0]
        self.full = FULL[self.n]
        self.op = None
        self.m = np.eye(self.n, dtype=int)
        self.x = np.array([[1., 2., 4.], [-.5, 0., 3.]])[:, :self.n]
        self.y = self.x.tolist()

    def ops(self):
        return list(range(NAMES[self.name][1]))

    def canon(self):
        return (self.name, key(self.m))

    def apply(self, i):
        o = self.g[i]
        before = o.mat.copy()
        if self.op is None:
            new = o.copied()
        else:
            new = self.op.combined(o)
            need(new is not self.op and new is not o, 'combined in place')
        self.m = self.m @ np.array(key(o.mat)).reshape(self.n, self.n)
        self.op = new
        need(key(new.mat) == key(self.m), 'product %s, expected %s',
             new.mat.tolist(), self.m.tolist())
        need(key(new.mat) in self.full, 'product outside of the group')
        got = new(self.x)
        close(got, apply_ref(self.m.tolist(), self.x.tolist()), 'image')
        close(new(self.x[0]), got[0], 'image of one point')
        close(np.linalg.norm(got, axis=-1), np.linalg.norm(self.x, axis=-1),
              'lengths')
        new.mat[...] = 7.
        eq(o.mat, before, 'factor after changing the product')
        new.mat[...] = self.m


def group_body(ch):
    name = ch.pick(sorted(NAMES), 'group')
    n, size = NAMES[name]
    g = pg.Group.create(name)
    need(len(g) == size, 'order %s', len(g))
    mats = [key(o.mat) for o in g]
    need(len(mats) == size and len(set(mats)) == size, 'repeated elements')
    need(set(mats) == FULL[n], 'not all symmetries of the shape')
    i = ch.pick(list(range(size)), 'element')
    o = g[i]
    need(key(o.mat) == mats[i], 'index and iteration differ')
    inv = [p for p in g if key(p.mat) == key(np.array(o.mat).T)]
    need(len(inv) == 1, 'inverse missing')
    x = np.array([[1., 2., 4.], [-.5, 0., 3.]])[:, :n]
    fz = Frozen(x=x)
    close(inv[0](o(x)), x, 'inverse')
    close(o.combined(inv[0])(x), x, 'combined with its inverse')
    close(o.combined()(x), o(x), 'combined with nothing')
    fz.check('operation')
    for shape in ((n,), (1, n), (0, n), (2, 5, n), (1, 2, 3, n)):
        y = np.arange(np.prod(shape, dtype=int)).reshape(shape) * .5 - 2.
        for y in (y, y.astype('f4'), y.astype(int)):
            got = o(y)
            need(got.shape == shape, 'image of %s shaped %s', shape,
                 got.shape)
            close(got.reshape(-1, n), np.reshape(apply_ref(
                np.array(o.mat).tolist(), y.reshape(-1, n).tolist()),
                (-1, n)), f'image of {shape}')
    for p in (o.combined(), o.copied()):
        eq(p.mat, o.mat, 'copy')
        p.mat[...] = 9.
        need(key(o.mat) == mats[i], 'copy shares the matrix')
    s = o.copied()
    s.mat = s.mat * .25
    eq(s.copied().mat, s.mat, 'copy of a scaled operation')
    close(s.combined(o, inv[0])(x), s(x), 'scaled operation')
    close(inv[0].combined(s)(x), .25 * x, 'scaled operation')
    r = o.to_simple_repr()
    eq(r['mat'], o.mat, 'repr')
    need(key(g[i - size].mat) == mats[i], 'index from the end')
    k = outcome(lambda: g[size + i])
    need(k[0] == 'err' and isinstance(k[1], IndexError), 'element %d: %r',
         size + i, k[1])
    repr(o)
    repr(g)
    need(len(g.to_simple_repr()) == size, 'repr of the group')
    c = g.copied()
    need([key(p.mat) for p in c] == mats, 'copy')
    c[i].mat[...] = 5.
    need(key(g[i].mat) == mats[i], 'copy shares its matrices')
    c = g.combined()
    need([key(p.mat) for p in c] == mats, 'combined with nothing')
    c[i].mat[...] = 5.
    need(key(g[i].mat) == mats[i], 'combination shares its matrices')
    c.ops.pop()
    need(len(g) == size, 'combination shares its list')
    return (name, i)


def combined_body(ch):
    n = ch.pick([2, 3], 'dims')
    k = ch.pick([1, 2, 3], 'factors')
    cls = ch.many(BASE[n], k, 'factor')
    gs = [c.group() for c in cls]
    for c, g in zip(cls, gs):
        need(len(g) == SIZE[c.__name__], 'order of %s', c.__name__)
    got = gs[0].combined(*gs[1:])
    want = [np.eye(n)]
    first = True
    for g in gs:
        want = [w @ o.mat for w in want for o in g]
        first = False
    need([key(o.mat) for o in got] == [key(w) for w in want],
         'combination of %s', [c.__name__ for c in cls])
    need(len(got) == len(want), 'size')
    if cls[0] is not pg.RotationOther:
        m = {key(o.mat) for o in gs[0]}
        need(all(key(a.mat @ b.mat) in m for a in gs[0] for b in gs[0]),
             'not closed')
    for c, g in zip(cls, gs):
        rot = 'Rotation' in c.__name__
        need(all(np.isclose(np.linalg.det(o.mat), 1.) for o in g) if rot else
             sorted(round(np.linalg.det(o.mat)) for o in g) == [-1, 1],
             'determinants of %s', c.__name__)
        need(key(g[0].mat) == key(np.eye(n)), 'identity first')
        o = c.create(len(g) - 1)
        o.mat[...] = 0.
        need(key(c.create(len(g) - 1).mat) == key(g[len(g) - 1].mat),
             'elements share storage')
    return (n, tuple(c.__name__ for c in cls))


def misc_body(ch):
    what = ch.pick(['unknown', 'empty', 'default'], 'case')
    if what == 'unknown':
        o = outcome(pg.Group.create, ch.pick(['', 'cube', 'CUBIC'], 'name'))
        need(o[0] == 'err' and isinstance(o[1], KeyError), 'unknown name')
    elif what == 'empty':
        need(len(pg.Group()) == 0 and list(pg.Group()) == [], 'empty group')
        a, b = pg.Group(), pg.Group()
        a.ops.append(pg.ReflectionX.create(1))
        need(len(b) == 0, 'groups share their operations')
    else:
        c = ch.pick(BASE[2] + BASE[3], 'operation')
        eq(c().mat, np.eye(c.n_dims), 'default operation')
        need(c().name == c.__name__, 'name')
    return what


def scenarios(tier):
    return [Tree(f.__name__[:-5], f) for f in (
        group_body, combined_body, misc_body)] + [
        Bfs('products', S, 3 if tier == 'quick' else 5)]
