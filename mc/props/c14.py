"""Listing text of HDF5 trees."""
import contextlib
import io as _io
import os
import shutil
import tempfile

import numpy as np

from pyhipp.io import h5

from ..engine import Tree
from ..h5ref import mem_file
from ..util import need

LEVEL = 'exploration'
RULE = ('every tree of up to N members over 8 member kinds (datasets with and '
        'without shape/attributes, text, groups nested two levels) x every '
        'option combination; distinct by the case')
ASSUMPTIONS = ['names, types, shapes, attributes, order and nesting are '
               'compared, not the box-drawing corner']
BOUNDS = {'quick': 'up to 2 members', 'thorough': 'up to 3 members'}
NMAX = 2

DEFAULT = dict(attr=True, dset=True, group=True, max_depth=16)
NODES = ['d0', 'd1', 's', 'g', 'ga', 'gd', 'gg', 'da']


def fill(g, k, kind):
    """Returns the reference lines below: (name, suffix, attrs, children)."""
    if kind in ('d0', 'd1', 'da'):
        v = {'d0': np.float32(1), 'd1': np.zeros((2, 3), dtype='i2'),
             'da': np.arange(4.)}[kind]
        ds = g.datasets.create(k, v)
        at = ''
        if kind == 'da':
            ds.attrs.create('u', 'cm')
            ds.attrs.create('v', 2)
            at = '[u=cm, v=2]'
        sh = f', {v.shape}' if np.ndim(v) else ''
        return ('dset', k, f'({v.dtype}{sh})', at, [])
    if kind == 's':
        g.datasets.create(k, 'text')
        return ('dset', k, '(object)', '', [])
    sub = g.create_group(k)
    at, ch = '', []
    if kind == 'ga':
        sub.attrs.create('n', 5)
        at = '[n=5]'
    if kind == 'gd':
        ch = [fill(sub, 'p', 'd0'), fill(sub, 'q', 'da')]
    if kind == 'gg':
        ch = [fill(sub, 'p', 'gd'), fill(sub, 'q', 'ga')]
    return ('group', k, '/', at, ch)


def lines(node, attr, dset, group, max_depth, depth=1):
    out = []
    if depth >= max_depth:
        return out
    for tp, k, suf, at, ch in node:
        if tp == 'dset':
            if dset:
                out.append((depth, k + suf + (at if attr else '')))
        elif group:
            out.append((depth, k + suf + (at if attr else '')))
            out += lines(ch, attr, dset, group, max_depth, depth + 1)
    return out


def parse(text):
    out = []
    ls = text.split('\n')
    out.append((0, ls[0]))
    for l in ls[1:]:
        body = l.lstrip(' ')
        ind = len(l) - len(body)
        need(ind % 3 == 0 and body[:3] in ('├─ ', '└─ '),
             'listing line %r', l)
        out.append((ind // 3 + 1, body[3:]))
    return out


def listing_body(ch):
    kinds = ch.upto(NODES, 0, NMAX, 'members')
    kw = dict(attr=ch.pick([True, False], 'attr'),
              dset=ch.pick([True, False], 'dset'),
              group=ch.pick([True, False], 'group'),
              max_depth=ch.pick([16, 1, 2, 3, 4], 'max_depth'))
    f = mem_file()
    ref = [fill(f, f'k{i}', k) for i, k in enumerate(kinds)]
    f.attrs.create('z', 1)
    want = [(0, '/' + ('[z=1]' if kw['attr'] else ''))] + \
        lines(ref, **kw)
    full = dict(kw)
    # options at their default value are left out
    kw = {k: v for k, v in kw.items() if v != DEFAULT[k]}
    got = f.what(**full)
    need(parse(got) == want, 'listing %r, expected lines %r', got, want)
    need(f.what(**kw) == got, 'listing %r with defaults, %r with all '
         'options', f.what(**kw), got)
    if not kw:
        out = _io.StringIO()
        with contextlib.redirect_stdout(out):
            f.ls()
        need(out.getvalue() == got + '\n', 'ls prints %r', out.getvalue())
    buf = _io.StringIO()
    f.ls(file=buf, **kw)
    need(buf.getvalue() == got + '\n', 'ls prints %r', buf.getvalue())
    dk = [n[1] for n in ref if n[0] == 'dset']
    w = f.datasets.what()
    need(w == ('[' + ', '.join(dk) + ']' if dk else ''),
         'dataset listing %r', w)
    for n in ref:
        o = f[n[1]]
        if n[0] == 'dset':
            need(o.what(attr=full['attr']) == n[2] + (
                n[3] if full['attr'] else ''), 'dataset what %r', o.what())
            need(o.what() == n[2] + n[3], 'dataset what %r', o.what())
        else:
            w = [(0, '/' + (n[3] if full['attr'] else ''))] + lines(
                n[4], **full)
            need(parse(o.what(**kw)) == w, 'group what %r', o.what(**kw))
    f.close()
    return (tuple(kinds), tuple(full.values()))


def chain_body(ch):
    """A chain of groups: the depth limit, by default and given."""
    n = ch.pick([1, 2, 14, 15, 16, 17, 20], 'levels')
    m = ch.pick([None, 1, 2, 3, 15, 16, 17, 18, 30], 'max_depth')
    f = mem_file()
    try:
        g = f
        for i in range(n):
            g = g.create_group('g%d' % i)
        kw = {} if m is None else {'max_depth': m}
        got = parse(f.what(**kw))
        want = [(0, '/')] + [(i + 1, 'g%d/' % i) for i in range(n)
                             if i + 1 < (16 if m is None else m)]
        need(got == want, 'listing of %d levels: %r, expected %r', n, got,
             want)
    finally:
        f.close()
    return (n, m)


def file_body(ch):
    """Listing a file by its path."""
    key = ch.pick([None, '/', 'g', 'g/p', 'd'], 'key')
    kw = {}
    if key != 'd' and ch.flag('no datasets'):
        kw['dset'] = False
    if ch.flag('no attributes'):
        kw['attr'] = False
    if key != 'd' and ch.flag('max_depth'):
        kw['max_depth'] = 2
    d = tempfile.mkdtemp(prefix='mc-c14-')
    try:
        p = os.path.join(d, 'f.hdf5')
        with h5.File(p, 'x') as f:
            fill(f, 'g', 'gg')
            fill(f, 'd', 'da')
            want = f['/' if key is None else key].what(**kw)
        with open(p, 'rb') as r:
            before = r.read()
        buf = _io.StringIO()
        how = ch.pick(['file', 'stdout'], 'to')
        a = [p] if key is None else [p, key]
        if how == 'file':
            h5.File.ls_from(*a, file=buf, **kw)
        else:
            with contextlib.redirect_stdout(buf):
                h5.File.ls_from(*a, **kw)
        need(buf.getvalue() == want + '\n', 'ls_from prints %r, expected %r',
             buf.getvalue(), want)
        with open(p, 'rb') as r:
            need(r.read() == before, 'listing changed the file')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return (key, tuple(kw.items()), how)


def scenarios(tier):
    global NMAX
    NMAX = 2 if tier == 'quick' else 3
    return [Tree('listing', listing_body), Tree('chain', chain_body),
            Tree('file', file_body)]
