"""Values of many kinds, written to and read back from HDF5."""
import numpy as np

from pyhipp.core import DataDict
from pyhipp.io import h5

from .h5ref import mem_file
from .util import need, outcome

V = {
    'int': 3, 'neg': -2**62, 'float': 2.5, 'nan': float('nan'),
    'true': True, 'complex': 1 - 2j, 'f4': np.float32(.1),
    'u8max': np.uint64(2**64 - 1), 'false': np.bool_(False),
    '0d': np.array(7, dtype='i2'), '0df': np.array(.5),
    'empty': np.zeros(0, 'f4'), 'empty2': np.zeros((2, 0), 'i8'),
    'one': np.array([5.]), 'oneone': np.array([[5]], dtype='u1'),
    'big-endian': np.array([1.5, -2], dtype='>f4'),
    'big-endian-int': np.array([1, 300], dtype='>i2'),
    'bools': np.array([True, False, True]),
    'complexes': np.array([1j, 2], dtype='c8'),
    'struct': np.array([(1, 2.5), (3, -1.)],
                       dtype=[('a', 'i4'), ('b', '>f8')]),
    'S': np.array([b'ab', b'c', b''], dtype='S4'),
    'text': 'txt', 'notext': '', 'unicode': 'h\u03b1 \u2713',
    'bytes': b'raw', 'list': [1., 2.5], 'lists': [[1, 2], [3, 4]],
    'tuple': (1, 2, 3), 'inf': np.array([np.inf, -np.inf, -0.]),
    'view': np.arange(10.)[::3], 'reversed': np.arange(4)[::-1],
    'fortran': np.asfortranarray(np.arange(6.).reshape(2, 3)),
    'half': np.arange(3, dtype='f2'), 'large': np.arange(7000.) / 7,
    'cube': np.arange(24).reshape(2, 3, 4),
}


def overwrites(w):
    """Values that a stored value w can take in place, with the result."""
    out = []
    if w.dtype.names or w.dtype.kind in 'Sb':
        return [(w[::-1].copy() if w.ndim else np.array(not w),) * 2]
    k = w.dtype.kind
    base = (np.arange(w.size).reshape(w.shape) * 3 + 2) % 100
    for dt in ('f8', '>f4', 'i2', '>i8', 'u1'):
        v = base.astype(dt)
        if k == 'c':
            v = v.astype('c16')
        out.append((v, v.astype(w.dtype)))
    if k in 'fc':
        v = base * .25 - .5
        v = v.astype('c16') * (1 - 1j) if k == 'c' else v
        out.append((v, v.astype(w.dtype)))
        s = np.empty(w.shape + (2,))
        s[...] = 99.
        if k == 'f':
            s[..., 1] = v
            out.append((s[..., 1], v.astype(w.dtype)))
            out.append((np.full(w.shape, np.nan),
                        np.full(w.shape, np.nan, w.dtype)))
    if k in 'fiu':
        out.append((base.tolist(), base.astype(w.dtype)))
    return out


def same(got, want, what, text=str):
    if isinstance(want, (str, bytes)):
        if text is str and isinstance(want, bytes):
            want = want.decode()
        if text is bytes and isinstance(want, str):
            want = want.encode()
        need(type(got) is type(want) and got == want,
             '%s: %r, expected %r', what, got, want)
        return
    w = np.asarray(want)
    if w.ndim:
        need(isinstance(got, np.ndarray), '%s is a %s', what, type(got))
    else:
        need(isinstance(got, np.generic), '%s is a %s, expected a scalar',
             what, type(got))
    g = np.asarray(got)
    need(g.dtype == w.dtype and g.shape == w.shape,
         '%s: %s %s, expected %s %s', what, g.dtype, g.shape, w.dtype, w.shape)
    need(g.tobytes() == w.tobytes() or np.array_equal(
        g, w, equal_nan=g.dtype.kind in 'fc'), '%s: %r, expected %r', what,
        got, want)


def body(ch, which):
    """which: 'attrs' or 'datasets'."""
    f = mem_file()
    try:
        text = str if which == 'attrs' else bytes
        where = ch.pick(['file', 'group'] +
                        (['dataset'] if which == 'attrs' else []), 'where')
        o = f
        if where == 'group':
            o = f.create_group('g')
        elif where == 'dataset':
            o = f.datasets.create('d', np.arange(3))
        m = getattr(o, which)
        name = ch.pick(list(V), 'value')
        v = V[name]
        mode = ch.pick(['create', 'dump', 'empty', 'over'] +
                       (['gdump'] if which == 'datasets' and
                        not isinstance(v, (list, tuple)) else []), 'mode')
        other = np.array([4, 5])
        m.create('k0', other)
        key = 'k1'
        is_text = isinstance(v, (str, bytes))
        want = v if is_text else np.asarray(v)
        d = None
        if mode == 'create':
            d = m.create(key, v)
        elif mode == 'dump':
            m.dump({key: v})
        elif mode == 'gdump':
            o.dump({key: v})
        elif mode == 'empty':
            if is_text:
                return
            d = m.create_empty(key, want.shape, want.dtype)
            g = np.asarray(m[key])
            need(g.dtype == want.dtype and g.shape == want.shape,
                 'empty: %s %s, expected %s %s', g.dtype, g.shape, want.dtype,
                 want.shape)
            m[key] = want
        elif mode == 'over':
            # the kind of the first value stays
            m.create(key, v)
            how = ch.pick(['set', 'ac', 'ca', 'dump'], 'how')
            if is_text:
                v = want = 'a longer text than before'
                todo = [(v, v)]
            else:
                todo = overwrites(want)
            for v, want in todo:
                if how == 'set':
                    m[key] = v
                elif how == 'dump':
                    m.dump({key: v}, flag='ac')
                else:
                    d = m.create(key, v, flag=how)
                same(m[key], want, 'after overwrite', text)
        if which == 'datasets' and d is not None:
            need(isinstance(d, h5.Dataset), 'returned %r', d)
            same(d[()], want, 'returned dataset', text)
            if not is_text:
                need(d.shape == want.shape and d.dtype == want.dtype and
                     d.ndim == want.ndim, 'returned %r', d)
        reads(f, o, m, key, want, other, which, text)
        return where, name, mode, str(want)
    finally:
        f.close()


def reads(f, o, m, key, want, other, which, text):
    same(m[key], want, '[]', text)
    same(getattr(m, key), want, '.', text)
    for ks in ((key,), (key, key), [key, 'k0', key], ('k0', 'k0'), ()):
        got = m[ks]
        need(type(got) is tuple and len(got) == len(ks),
             'read of %r: %d values', ks, len(got))
        for k, g in zip(ks, got):
            same(g, want if k == key else other, f'{k} of {ks}', text)
    need([k for k, _ in m.items()] == list(m.keys()) == ['k0', key] or
         which == 'datasets', 'keys')
    for k, g in m.items():
        same(g, want if k == key else other, k + ' of items', text)
    vals = list(m.values())
    need(len(vals) == 2, 'values')
    for k, g in zip(m.keys(), vals):
        same(g, want if k == key else other, k + ' of values', text)
    for kw in ({}, {'keys': [key]}, {'keys': [key, 'k0', key]},
               {'key_re': '.1'}):
        d = m.load(**kw)
        need(type(d) is DataDict and set(d) == (
            {key, 'k0'} if not kw or len(kw.get('keys', ())) > 1 else {key}),
            'load(%r) gives %r', kw, list(d))
        same(d[key], want, f'load {kw}', text)
    if which == 'datasets':
        same(o[key][()], want, 'dataset', text)
        same(o.load()[key], want, 'group load', text)
        if not isinstance(want, (str, bytes)):
            d = o[key]
            need(d.shape == want.shape and d.ndim == want.ndim and
                 d.dtype == want.dtype, 'dataset: %r %r', d.shape, d.dtype)
            if want.ndim and want.size:
                for s in (slice(1, None), 0, -1, Ellipsis,
                          slice(None, None, 2)):
                    same(d[s], want[s], f'part {s}', text)
        pair = o[key, 'k0', key]
        need(type(pair) is tuple and len(pair) == 3 and all(
            isinstance(p, h5.Dataset) for p in pair), 'members by tuple')
        same(pair[2][()], want, 'members by tuple', text)
        same(pair[1][()], other, 'members by tuple', text)
    k = outcome(lambda: m[key, 'zz'])
    need(k[0] == 'err' and isinstance(k[1], KeyError), 'missing key: %r',
         k[1])
