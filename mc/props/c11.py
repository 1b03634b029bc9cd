"""HDF5: dump then load gives the data back, wherever it is dumped."""
import os
import tempfile

import numpy as np

from pyhipp.core import DataDict, DataTable
from pyhipp.io import h5
from pyhipp.io.h5.abc import GroupLike, from_h5_data, to_h5_data
from pyhipp.io.h5.shortcuts import txt_to_h5

from ..engine import Tree
from ..h5ref import (RG, RD, Tree as Ref, stored, same_val, cmp_tree,
                     cmp_load, as_dict, mem_file, parts)
from ..util import need, outcome, eq

LEVEL = 'exploration'
RULE = ('every (data tree, destination, flags, previous file content) of the '
        'alphabet is dumped and loaded back through the real library; '
        'distinct by the case')
ASSUMPTIONS = ['HDF5 itself (h5py) is trusted',
               'text comes back as bytes (documented)']
BOUNDS = {'quick': 'data trees of <= 2 keys per level and depth <= 2; '
                   '6 destinations x 6 file flags x 4 x 4 flags x 7 previous '
                   'contents', 'thorough': '3 keys per level'}
TIER = 'quick'

LEAF = {
    'int': 3, 'float': 2.5, 'bool': True, 'str': 'text', 'uni': 'é√',
    'bytes': b'raw', 'npint': np.int32(7), 'npf': np.float32(.5),
    'i8': np.arange(3), 'f4': np.array([1.5, -2.], dtype='f4'),
    'b': np.array([True, False]), 'c16': np.array([1 + 2j]),
    'u1': np.array([0, 255], dtype='u1'), 'empty': np.zeros((0, 3)),
    '0d': np.array(1.25), 'str0': '',
    '2d': np.arange(12.).reshape(3, 4)[::2, ::-1], 'F': np.asfortranarray(
        np.arange(6).reshape(2, 3)), 'S': np.array([b'ab', b'c']),
    'nan': np.array([np.nan, np.inf, -0.]), '3d': np.ones((2, 1, 3), 'i2'),
    'struct': np.array([(1, 2.5), (3, 4.5)], dtype=[('a', 'i4'), ('b', 'f8')]),
    'big': np.arange(100000.),
}
SMALL = ['int', 'str', 'bytes', 'i8', '2d', 'empty']


def tree_of(ch, depth, lo=0, hi=2, leaves=None, label='d'):
    names = ['k', 'a', 'z_1'][:hi]
    out = {}
    for nm in names[:ch.pick(list(range(lo, hi + 1)), label + '.n')]:
        opts = list(leaves or SMALL) + (['{}'] if depth > 1 else [])
        c = ch.pick(opts, f'{label}.{nm}')
        out[nm] = tree_of(ch, depth - 1, 0, 1 if TIER == 'quick' else 2,
                          ['i8', 'str', 'float'], f'{label}.{nm}') \
            if c == '{}' else LEAF[c]
    return out


def ref_of(d):
    return {k: ref_of(v) if isinstance(v, dict) else stored(v)
            for k, v in d.items()}


def wrap(d, how):
    """The same data through another mapping type."""
    if how == 'dict':
        return d
    return DataDict({k: wrap(v, how) if isinstance(v, dict) else v
                     for k, v in d.items()})


def same_src(a, b):
    need(list(a) == list(b), 'dump changed the keys of its argument')
    for k in b:
        if isinstance(b[k], dict):
            same_src(a[k], b[k])
        elif isinstance(b[k], np.ndarray):
            need(a[k] is b[k], 'dump replaced a value of its argument')


def trees_body(ch):
    d = tree_of(ch, 2)
    how = ch.pick(['dict', 'DataDict'], 'mapping')
    src = wrap(d, how)
    f = mem_file()
    try:
        f.dump(src)
        same_src(src, d)
        cmp_load(f.load(), ref_of(d))
        g = f.create_group('elsewhere')
        g.dump(f.load()) if 'elsewhere' not in d else None
    finally:
        f.close()
    return (str(d), how)


def leaf_body(ch):
    name = ch.pick(sorted(LEAF), 'leaf')
    via = ch.pick(['dump', 'create', 'dset.dump', 'nested', 'dump_to',
                   'dump_to key', 'deep'], 'via')
    v = LEAF[name]
    want = stored(v)
    if via in ('dump_to', 'dump_to key', 'deep'):
        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, 'f.h5')
            if via == 'dump_to':
                h5.File.dump_to(p, {'x': v})
                got = h5.File.load_from(p)['x']
            elif via == 'dump_to key':
                h5.File.dump_to(p, v, key='g/x')
                got = h5.File.load_from(p, 'g/x')
                same_val(h5.File.load_from(p)['g/x'], want, 'via root')
            else:
                h5.File.dump_to(p, {'p': {'q': {'r': {'s': {'x': v}}}}})
                got = h5.File.load_from(p)['p/q/r/s/x']
                same_val(h5.File.load_from(p, '/p/q/r/')['s/x'], want, 'sub')
    else:
        f = mem_file()
        try:
            if via == 'dump':
                f.dump({'x': v})
                got = f.load()['x']
            elif via == 'create':
                got = f.datasets.create('x', v)[()]
                same_val(f.datasets.x, want, 'attribute')
            elif via == 'dset.dump':
                f.datasets.dump({'x': v, 'y': 1})
                d = f.datasets.load()
                need(set(d) == {'x', 'y'}, 'datasets.load')
                got = d['x']
            else:
                f.dump({'g': {'x': v}, 'h': {}})
                d = f.load()
                need(len(d['h']) == 0 and type(d['g']) is DataDict, 'groups')
                got = d['g/x']
        finally:
            f.close()
    same_val(got, want, name)
    return (name, via)


PRE = {
    'none': None,
    'empty': {},
    'parent': {'g': {'old': np.arange(2)}},
    'target group': {'g': {'h': {'k': np.array([9, 9, 9]), 'o': 1}}},
    'target dset': {'g': {'h': np.array([8, 8, 8])}},
    'parent dset': {'g': 5},
    'clash': {'k': np.array([9, 9, 9]), 'w': 2, 'g': {'h': {'k': 's'}}},
}


def dump_to_body(ch):
    pre = ch.pick(list(PRE), 'previous content')
    key = ch.pick([None, '/', 'g', 'g/h', '/g//h/', 'u/v/w'], 'key')
    data = ch.pick(['group', 'array', 'nested', 'bad'], 'data')
    fl = ch.pick(['ac', 'a', 'x', 'w', 'r', 'ca'], 'f_flag')
    g_flag = ch.pick(['x', 'ac'], 'g_flag')
    d_flag = ch.pick(['x', 'ac'], 'dump_flag')
    cp = ch.pick([True, False], 'create_parent')
    v = {'group': {'k': np.array([1, 2, 3])}, 'array': np.array([4, 5, 6]),
         'nested': {'k': np.array([1, 2, 3]), 'h': {'q': 1.5}},
         'bad': {'k': np.array([1, 2, 3]), 'l': [1, 2]}}[data]
    if data != 'group' and fl in ('ca', 'r') and TIER == 'quick':
        return None
    with tempfile.TemporaryDirectory() as tmp:
        p = os.path.join(tmp, 'f.h5')
        t = Ref()
        if PRE[pre] is not None:
            h5.File.dump_to(p, PRE[pre], f_flag='x')
            fill(t.root, PRE[pre])
        kw = {}
        if key is not None:
            kw['key'] = key
        # options at their default value are left out
        opt = dict(f_flag=fl, g_flag=g_flag, dump_flag=d_flag,
                   create_parent=cp)
        kw.update({k: x for k, x in opt.items() if x != dict(
            f_flag='ac', g_flag='x', dump_flag='x', create_parent=True)[k]})
        o = outcome(h5.File.dump_to, p, v, **kw)
        exists = PRE[pre] is not None
        if (fl in ('a', 'r') and not exists) or (fl == 'x' and exists):
            need(o[0] == 'err', 'flag %s accepted with file %s', fl,
                 'present' if exists else 'missing')
            need(os.path.exists(p) == exists, 'file created/removed')
            if exists:
                check(p, t)
            return (pre, key, data, fl, 'refused')
        if fl == 'w':
            t = Ref()
        if fl == 'r':
            need(o[0] == 'err', 'wrote to a read-only file')
            check(p, t)
            return (pre, key, data, fl, 'read-only')
        ok = plan(t, key, v, g_flag, d_flag, cp, data)
        if ok == 'skip':
            return None
        if not ok:
            need(o[0] == 'err', 'accepted although it must fail')
            # nothing that existed may be lost or changed by a refused dump
            with h5.File(p) as f:
                if d_flag == 'x':
                    keep(t.root, t, f)
                if data == 'bad' and key in (None, '/'):
                    cmp_load(f.load(), as_dict(t, t.root))
            return (pre, key, data, fl, g_flag, d_flag, cp, 'err')
        need(o[0] == 'ok', 'failed: %r', o[1])
        check(p, t)
        ks = '/'.join(parts(key or ''))
        got = h5.File.load_from(p, ks) if ks else h5.File.load_from(p)
        n = t.lookup(ks) if ks else t.root
        if isinstance(n, RG):
            cmp_load(got, as_dict(t, n))
        else:
            same_val(got, n.v, 'loaded by key')
    return (pre, key, data, fl, g_flag, d_flag, cp)


def check(p, t):
    cmp_load(h5.File.load_from(p), as_dict(t, t.root))
    cmp_load(h5.File.load_from(p, '/'), as_dict(t, t.root))


def keep(g, t, impl):
    for k, n in g.c.items():
        need(k in impl, 'existing object %s lost', k)
        if isinstance(n, RG):
            keep(n, t, impl[k])
        else:
            same_val(impl[k][()], n.v, 'existing dataset ' + k)


def fill(g, d):
    for k, v in d.items():
        if isinstance(v, dict):
            g.c[k] = RG()
            fill(g.c[k], v)
        else:
            g.c[k] = RD(stored(v))


def plan(t, key, v, g_flag, d_flag, cp, data):
    """Apply to the reference. True / False (must fail) / 'skip'."""
    ks = parts(key or '')
    g = t.root
    if data == 'bad':
        return False
    if not ks:
        if data == 'array':
            return False
        return put(t, g, v, d_flag)
    import copy
    bak = copy.deepcopy(t.root)
    for k in ks[:-1]:
        if k not in g.c:
            if not cp:
                t.root = bak
                return False
            g.c[k] = RG()
        g = g.c[k]
        if not isinstance(g, RG):
            t.root = bak
            return False
    last = ks[-1]
    if isinstance(v, dict):
        if last in g.c:
            if g_flag == 'x' or not isinstance(g.c[last], RG):
                t.root = bak
                return False
        else:
            g.c[last] = RG()
        r = put(t, g.c[last], v, d_flag)
    else:
        r = put(t, g, {last: v}, d_flag)
    if r is not True:
        t.root = bak
    return r


def put(t, g, d, flag):
    """All-or-nothing on the reference."""
    for k, v in d.items():
        if k in g.c:
            n = g.c[k]
            if flag == 'x':
                return False
            if isinstance(v, dict) != isinstance(n, RG):
                return False
            if isinstance(n, RD):
                if isinstance(n.v, bytes):
                    return 'skip'
                if n.v.shape != np.shape(v):
                    return 'skip'
    for k, v in d.items():
        if isinstance(v, dict):
            g.c.setdefault(k, RG())
            r = put(t, g.c[k], v, flag)
            if r is not True:
                return r
        else:
            g.c[k] = RD(stored(v))
    return True


class Inner(GroupLike):
    h5_data_typedict = {'n': int, 'name': str}

    def __init__(self, n, name):
        self.n, self.name = n, name


class Outer(GroupLike):
    h5_data_typedict = {'inner': Inner, 'arr': np.ndarray, 'tab': DataTable}

    def __init__(self, inner, arr, tab, extra=None):
        self.inner, self.arr, self.tab, self.extra = inner, arr, tab, extra


def group_like_body(ch):
    arr = LEAF[ch.pick(['i8', 'f4', '2d', 'empty'], 'arr')]
    name = ch.pick(['x', 'é', 'two words'], 'name')
    ncol = ch.pick([0, 1, 2], 'columns')
    where = ch.pick(['group', 'file', 'file sub'], 'where')
    twice = ch.pick([None, 'x', 'ac'], 'dump again with flag')
    extra = ch.pick([None, 5], 'init kw')
    tab = DataTable({f'c{i}': arr for i in range(ncol)})
    obj = Outer(Inner(4, name), arr, tab)
    kw = {} if extra is None else {'extra': extra}
    with tempfile.TemporaryDirectory() as tmp:
        p = os.path.join(tmp, 'f.h5')
        if where == 'group':
            f = mem_file()
            g = f.create_group('g')
            obj.to_h5_group(g)
            if twice:
                o = outcome(obj.to_h5_group, g, flag=twice)
                need((o[0] == 'ok') == (twice == 'ac'), 'dump again: %r', o[1])
            back = Outer.from_h5_group(g, **kw)
            f.close()
        else:
            grp = '/'
            if where == 'file sub':
                with h5.File(p, 'w') as f:
                    f.create_group('s')
                grp = '/s'
                need(outcome(obj.to_h5_file, p, group=grp)[0] == 'err',
                     'existing file accepted with flag x')
                obj.to_h5_file(p, group=grp, f_flag='a')
            else:
                obj.to_h5_file(p)
            if twice:
                o = outcome(obj.to_h5_file, p, group=grp, f_flag='ac',
                            flag=twice)
                need((o[0] == 'ok') == (twice == 'ac'), 'dump again: %r', o[1])
            back = Outer.from_h5_file(p, group=grp, **kw)
    need(type(back) is Outer and type(back.inner) is Inner, 'types')
    need(back.inner.n == 4 and back.inner.name == name and
         type(back.inner.name) is str, 'inner: %r %r', back.inner.n,
         back.inner.name)
    eq(back.arr, arr, 'array', dtype=True)
    need(type(back.tab) is DataTable and set(back.tab) == set(tab), 'table')
    for k in tab:
        eq(back.tab[k], tab[k], 'table column', dtype=True)
    need(back.extra == extra, 'init keyword')
    return (name, arr.shape, ncol, where, twice, extra)


class Named(str):
    def __new__(cls, s, tag=None):
        o = super().__new__(cls, s)
        o.tag = tag
        return o


def helper_body(ch):
    """One value to and from its stored form."""
    tp = ch.pick(['str', 'named', 'int', 'array', 'like'], 'type')
    n = ch.pick([0, 4], 'n')
    kw = ch.flag('init_kw')
    if tp in ('str', 'named'):
        s = ['', 'é x'][n > 0]
        need(to_h5_data(s) == s, 'stored form of text')
        if tp == 'str':
            got = from_h5_data(s.encode(), str)
            need(type(got) is str and got == s, 'text %r', got)
        else:
            got = from_h5_data(s.encode(), Named,
                               *([{'tag': n}] if kw else []))
            need(type(got) is Named and got == s and
                 got.tag == (n if kw else None), 'text %r', got)
    elif tp == 'int':
        need(to_h5_data(n) == n and from_h5_data(n, int) == n, 'number')
    elif tp == 'array':
        a = np.arange(n)
        eq(to_h5_data(a), a, 'array')
        eq(from_h5_data(a, np.ndarray), a, 'array')
    else:
        o = Outer(Inner(n, 'x'), np.arange(n), DataTable({}))
        d = to_h5_data(o)
        need(set(d) == {'inner', 'arr', 'tab'} and
             d['inner'] == {'n': n, 'name': 'x'}, 'stored form %r', d)
        for i in range(2):      # one call leaves nothing behind for the next
            d = {'inner': {'n': n, 'name': b'x'}, 'arr': np.arange(n),
                 'tab': {}}
            k = kw and i == 0
            b = from_h5_data(d, Outer, *([{'extra': 7}] if k else []))
            need(type(b) is Outer and type(b.inner) is Inner and
                 b.inner.n == n and b.inner.name == 'x' and
                 b.extra == (7 if k else None), 'object')
            eq(b.arr, np.arange(n), 'array')
    return (tp, n, kw)


def txt_body(ch):
    rows = ch.pick([0, 1, 2, 3, 5], 'rows')
    dt = ch.pick([[('id', 'i8'), ('m', 'f8')], [('a', 'f4'), ('b', 'i4'),
                                                ('c', 'f8')],
                  [('only', 'f8')]], 'dtype')
    dest = ch.pick(['path', 'Path', 'group', 'existing path'], 'dest')
    d_flag = ch.pick(['default', 'x', 'ac'], 'd_flag')
    pre = ch.flag('a dataset of that name exists')
    cols = {n: np.array([(i + 1) * (j + 1) for i in range(rows)], dtype=t)
            for j, (n, t) in enumerate(dt)}
    kw = {} if d_flag == 'default' else {'d_flag': d_flag}
    with tempfile.TemporaryDirectory() as tmp:
        src = os.path.join(tmp, 'in.txt')
        with open(src, 'w') as f:
            f.write('# header\n')
            for i in range(rows):
                f.write(' '.join(str(cols[n][i]) for n, _ in dt) + '\n')
        p = os.path.join(tmp, 'out.h5')
        first = dt[0][0]
        if dest == 'group':
            f = mem_file()
            g = f.create_group('g')
            if pre:
                g.datasets.create(first, np.zeros(rows, dtype=dt[0][1]))
            o = outcome(txt_to_h5, src, g, np.dtype(dt), **kw)
            got = g.load()
            f.close()
            clash = pre
        else:
            if dest == 'existing path' or pre:
                h5.File.dump_to(p, {first: np.zeros(rows, dt[0][1]),
                                    'keep': 1})
            from pathlib import Path
            if dest == 'existing path':
                kw['f_flag'] = 'a'
            o = outcome(txt_to_h5, src, Path(p) if dest == 'Path' else p,
                        np.dtype(dt), **kw)
            got = h5.File.load_from(p)
            clash = dest == 'existing path'
            need(('keep' in got) == clash, 'file flag: %s', list(got))
        if clash and d_flag == 'x':
            need(o[0] == 'err' and isinstance(o[1], ValueError),
                 'existing dataset replaced with flag x')
            eq(got[first], np.zeros(rows), 'existing dataset')
            return 'refused'
        need(o[0] == 'ok', 'txt_to_h5: %r', o[1])
        need({k for k in got if k != 'keep'} == set(cols), 'columns %s',
             list(got))
        for n, t in dt:
            eq(got[n], cols[n], f'column {n}', dtype=True)
    return (rows, str(dt), dest, d_flag, pre)


def reject_body(ch):
    """Unsupported data anywhere in the tree: TypeError, nothing written."""
    bad = ch.pick([[1], (1,), None, {1, 2}, object(), 'badkey', 'badkey2'],
                  'bad')
    depth = ch.pick([0, 1, 2], 'depth')
    pos = ch.pick(['first', 'last'], 'position')
    fl = ch.pick(['x', 'ac'], 'flag')
    pair = {'badkey': (3, 1), 'badkey2': (('a', 'b'), 1)}.get(
        bad if isinstance(bad, str) else None, ('bad', bad))
    items = [('ok1', 1), ('ok2', np.arange(2)), ('sub', {'x': 1})]
    d = dict([pair] + items if pos == 'first' else items + [pair])
    for i in range(depth):
        d = {'p': 1, f'l{i}': d, 'q': 's'}
    f = mem_file()
    try:
        f.dump({'p': 5, 'old': np.arange(3)})
        t = Ref()
        fill(t.root, {'p': 5, 'old': np.arange(3)})
        o = outcome(f.dump, d, flag=fl)
        need(o[0] == 'err' and isinstance(o[1], TypeError),
             'unsupported data: %r', o[1])
        cmp_tree(t, f)
        for x in ([1, 2], None, 5, [('k', 1)], np.arange(2)):
            o = outcome(f.dump, x)
            need(o[0] == 'err' and isinstance(o[1], TypeError),
                 'not a mapping: %r', o[1])
            o = outcome(f.dump, x, flag=fl)
            need(o[0] == 'err' and isinstance(o[1], TypeError),
                 'not a mapping: %r', o[1])
        cmp_tree(t, f)
    finally:
        f.close()
    return (str(type(bad)), str(bad) if isinstance(bad, str) else '', depth,
            pos, fl)


def scenarios(tier):
    global TIER
    TIER = tier
    return [Tree(f.__name__[:-5], f) for f in (
        trees_body, leaf_body, dump_to_body, group_like_body, helper_body, txt_body,
        reject_body)]
