"""HDF5 files on disk: open flags, exit paths, persistence."""
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

from pyhipp.io import h5

from ..engine import Bfs, System, Tree as TreeScn
from ..h5ref import RG, RD, Tree, cmp_tree, canon
from ..util import need, outcome

LEVEL = 'model_checking'
ASSUMPTIONS = ['HDF5 itself (h5py) is trusted', 'one process at a time']
BOUNDS = {'quick': 'all session histories of depth 2 over 6 open flags x 9 '
                   'actions x 4 exit paths x path forms, from a missing, an '
                   'empty, a filled and a foreign file; all invalid flags',
          'thorough': 'depth 3'}

FLAGS = ['r', 'a', 'x', 'ac', 'ca', 'w']
ACTS = ['none', 'dset', 'group', 'del', 'over', 'attr', 'dumpfail', 'read',
        'dump']
EXITS = ['normal', 'raise', 'close', 'closewith']
BADFLAGS = ['', 'rw', 'r+', 'w-', 'A', 'R', None, 'acx', 'wx', 3]


class Boom(Exception):
    pass


class S(System):
    @staticmethod
    def inits():
        return ['missing', 'empty', 'full', 'foreign']

    def __init__(self, init):
        self.d = tempfile.mkdtemp(prefix='mc-c12-')
        self.path = os.path.join(self.d, 'f.hdf5')
        self.t = None           # None: no file; 'foreign': not HDF5
        if init in ('empty', 'full'):
            import h5py
            self.t = Tree()
            with h5py.File(self.path, 'w') as f:
                if init == 'full':
                    f['d'] = np.arange(3)
                    f.create_group('g')['x'] = 1.5
                    f.attrs['a'] = 1
            if init == 'full':
                self.t.root.c['d'] = RD(np.arange(3))
                g = self.t.root.c['g'] = RG()
                g.c['x'] = RD(np.array(1.5))
                self.t.root.attrs['a'] = np.array(1)
        elif init == 'foreign':
            self.t = 'foreign'
            with open(self.path, 'wb') as f:
                f.write(b'this is not an HDF5 file\n' * 50)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def canon(self):
        if self.t is None or self.t == 'foreign':
            return self.t
        return canon(self.t)

    def ops(self):
        out = [('bad', f) for f in BADFLAGS]
        for fl in FLAGS:
            for act in ACTS:
                for ex in EXITS:
                    if act in ('none', 'dset', 'over') or ex == 'normal' or \
                            (act == 'del' and ex == 'raise'):
                        out.append((fl, act, ex))
        return out

    def bytes(self):
        if not os.path.exists(self.path):
            return None
        with open(self.path, 'rb') as f:
            return f.read()

    def act(self, f, act):
        """-> True if the file content must not change."""
        t = self.t
        r = t.root
        new = 0
        while f'n{new}' in r.c:
            new += 1
        if act == 'dset':
            f.datasets.create(f'n{new}', np.arange(new + 1.))
            r.c[f'n{new}'] = RD(np.arange(new + 1.))
        elif act == 'group':
            f.create_group(f'n{new}')
            r.c[f'n{new}'] = RG()
        elif act == 'del':
            k = sorted(r.c)[0] if r.c else None
            if k:
                del f[k]
                del r.c[k]
            else:
                del f['nothing']
        elif act == 'over':
            f.datasets.create('d', np.array([7, 8, 9]), flag='ac')
            r.c['d'] = RD(np.array([7, 8, 9]))
        elif act == 'attr':
            f.attrs.create('a', 4, flag='ac')
            r.attrs['a'] = np.array(4)
        elif act == 'dump':
            f.dump({'d': np.array([4, 5, 6]), 'g': {'y': 2}}, flag='ac')
            r.c['d'] = RD(np.array([4, 5, 6]))
            r.c.setdefault('g', RG()).c['y'] = RD(np.array(2))
        elif act == 'dumpfail':
            f.dump({'q': 1, 'g': {'bad': object()}}, flag='ac')
        elif act == 'read':
            cmp_tree(t, f)

    def apply(self, op):
        before = self.bytes()
        if op[0] == 'bad':
            for p in (self.path, Path(self.path), None):
                o = outcome(h5.File, p, op[1])
                need(o[0] == 'err' and isinstance(
                    o[1], (ValueError, TypeError)) and
                    not isinstance(o[1], OSError),
                    'flag %r gives %r', op[1], o[1])
            need(self.bytes() == before, 'flag %r changed the file', op[1])
            return
        fl, act, ex = op
        path = self.path if len(act) % 2 else Path(self.path)
        o = outcome(h5.File, path, fl)
        exists, foreign = self.t is not None, self.t == 'foreign'
        ok = (not exists and fl in ('x', 'ac', 'ca', 'w')) or \
            (exists and not foreign and fl != 'x') or (exists and fl == 'w')
        if not ok:
            need(o[0] == 'err' and isinstance(o[1], OSError),
                 'open %r (exists: %s) gives %r', fl, exists, o[1])
            need(self.bytes() == before,
                 'failed open with %r changed the file', fl)
            return
        need(o[0] == 'ok', 'open %r (exists: %s): %r', fl, exists, o[1])
        f = o[1]
        if not exists or fl == 'w':
            self.t = Tree()
        if not self.replaying:
            cmp_tree(self.t, f, what=f'after open {fl!r}:/')
        writes = act not in ('none', 'read', 'dumpfail')
        refused = writes and fl == 'r'
        saved = Tree()
        saved.root = _copy(self.t.root)
        err = None

        def body():
            self.act(f, act)

        if ex in ('normal', 'raise', 'closewith'):
            try:
                with f as g:
                    need(g is f, 'with gives another object')
                    body()
                    if ex == 'raise':
                        raise Boom()
                    if ex == 'closewith':
                        f.close()
            except Exception as e:      # noqa
                err = e
        else:
            try:
                body()
            except Exception as e:      # noqa
                err = e
            f.close()
            f.close()
        if refused:
            need(err is not None and not isinstance(err, Boom),
                 'write %r accepted on a read-only file', act)
            self.t = saved
        elif act == 'dumpfail':
            need(isinstance(err, TypeError), 'unsupported data: %r', err)
        elif act == 'del' and not saved.root.c:
            need(isinstance(err, KeyError), 'delete of nothing: %r', err)
        elif ex == 'raise':
            need(isinstance(err, Boom), 'exception became %r', err)
        else:
            need(err is None, '%s: %r', act, err)
        o = outcome(lambda: list(f.keys()))
        need(o[0] == 'err' or list(o[1]) == [],
             'file still open after exit %r', ex)
        if fl == 'r':
            need(self.bytes() == before, 'read-only session changed the file')
        # what is on disk now, read independently and through the API
        import h5py
        with h5py.File(self.path, 'r') as raw:
            cmp_tree(self.t, h5.Group(raw), what='on disk:/')
        if not self.replaying:
            b = self.bytes()
            d = h5.File.load_from(path)
            need(set(d.keys()) == set(self.t.root.c), 'load_from keys')
            with open(os.devnull, 'w') as null:
                h5.File.ls_from(path, file=null)
            need(self.bytes() == b, 'loading changed the file')


def _copy(n):
    if isinstance(n, RD):
        r = RD(n.v)
    else:
        r = RG()
        r.c = {k: _copy(v) for k, v in n.c.items()}
    r.attrs = dict(n.attrs)
    return r


def detached_body(ch):
    """A file object without a path holds nothing and closes harmlessly."""
    fl = ch.pick(FLAGS, 'flag')
    how = ch.pick(['close', 'with', 'withraise', 'raw'], 'how')
    f = h5.File(flag=fl)
    if how == 'close':
        f.close()
        f.close()
    elif how == 'with':
        with f as g:
            need(g is f, 'with')
    elif how == 'withraise':
        try:
            with f:
                raise Boom()
        except Boom:
            pass
        else:
            need(False, 'exception swallowed')
    else:
        import h5py
        raw = h5py.File('c12.h5', 'w', driver='core', backing_store=False)
        f = h5.File.from_raw(raw)
        with f:
            f.datasets.create('a', 1)
            need(f.datasets['a'] == 1, 'from_raw')
        need(not raw, 'from_raw: file left open')
    return (fl, how)


def scenarios(tier):
    return [TreeScn('detached', detached_body),
            Bfs('sessions', S, 2 if tier == 'quick' else 3)]
