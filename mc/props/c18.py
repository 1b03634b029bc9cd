"""Name lists, plain representations of objects, log lines."""
import contextlib
import io
import itertools
import json
import os
import re
import shutil
import tempfile

import numpy as np
import yaml

from pyhipp.core import abc, DataTable
from pyhipp.io import h5
from pyhipp.io.h5.utils import KeyList

from ..engine import Bfs, System, Tree
from ..h5ref import mem_file
from ..util import need, outcome

LEVEL = 'model_checking'
ASSUMPTIONS = ['PyYAML and json are trusted', 'pattern syntax is that of re']
BOUNDS = {'quick': 'all name lists of up to 3 names over 4 names x 8 '
                   'patterns; all objects of up to 3 declared attributes '
                   'nested up to 2 levels x 4 kinds; log histories of depth '
                   '2 over 38 calls; all library objects with a declared '
                   'representation',
          'thorough': 'up to 5 names, log depth 3'}

NAMES = ['a', 'ab', 'b', 'x/y']
PATS = [None, '', 'a', 'a$', '.b', 'b', '(a|x)', 'z']


def keylists(n):
    def body(ch):
        m = ch.pick(range(n + 1), 'len')
        names = [ch.pick(NAMES, 'name') for _ in range(m)]
        form = ch.pick(['list', 'tuple', 'iter', 'keys'], 'form')
        if form == 'keys' and len(set(names)) < m:
            return ('dup',)
        src = {'list': list(names), 'tuple': tuple(names),
               'iter': iter(names), 'keys': {k: 1 for k in names}.keys()
               }[form]
        kl = KeyList(src)
        if form == 'list':
            src.append('late')
        for _ in range(2):      # an iterator given is not consumed twice
            need(list(kl) == names, 'iteration gives %s', list(kl))
        need(len(kl) == m, 'length %d', len(kl))
        need(list(reversed(kl)) == names[::-1], 'reversed')
        for i in range(-m - 1, m + 1):
            o = outcome(lambda: kl[i])
            if -m <= i < m:
                need(o == ('ok', names[i]), 'item %d: %r', i, o[1])
            else:
                need(o[0] == 'err' and isinstance(o[1], IndexError),
                     'item %d: %r', i, o[1])
        need(list(kl[1:]) == names[1:], 'slice')
        for k in NAMES + ['', 'y']:
            need((k in kl) == (k in names), 'contains %r', k)
            need(kl.count(k) == names.count(k), 'count %r', k)
            if k in names:
                need(kl.index(k) == names.index(k), 'index %r', k)
        need(list(kl.to_simple_repr()) == names, 'plain form')
        need(repr(kl) == repr(tuple(names)) or m > 3, 'repr %r', repr(kl))
        need(json.loads(kl.to_json()) == names, 'json')
        for p in PATS:
            want = [k for k in names if p is None or re.match(p, k)]
            got = kl.matched(p)
            need(isinstance(got, KeyList) and list(got) == want,
                 'matched(%r) = %s, expected %s', p, list(got), want)
            need(list(h5.utils.Utils.find_matched_keys(names, p)) == want,
                 'find_matched_keys')
        need(list(kl) == names, 'selection changed the list')
        need(not hasattr(kl, 'append'), 'mutable')
        return tuple(names)
    return body


# -- plain forms -----------------------------------------------------------

def make(kind, typed, keys, vals):
    ns = {'repr_attr_keys': tuple(keys)}
    if typed is not None:
        ns['repr_enable_type_string'] = typed
    cls = type('Cls' + kind, (abc.HasDictRepr if kind == 'dict' else
                              abc.HasListRepr,), ns)
    o = cls()
    for k, v in zip(keys, vals):
        setattr(o, k, v)
    o.hidden = 'never shown'
    return o


def plain(ch, depth):
    """(object, expected simple form)"""
    kind = ch.pick(['dict', 'list'], 'kind')
    typed = ch.pick([None, True, False], 'typed')
    n = ch.pick(range(3 if depth else 2), 'n')
    keys = [('p', 'q'), ('q', 'p')][ch.flag('order') if n == 2 else 0][:n]
    vals, want = [], []
    for i in range(n):
        v = ch.pick(['int', 'str', 'none'] + (['obj'] if depth and i == 0
                                              else []), 'val')
        if v == 'obj':
            o, w = plain(ch, depth - 1)
        else:
            o = w = {'int': i + 1, 'str': 't%d' % i, 'none': None}[v]
        vals.append(o)
        want.append(w)
    obj = make(kind, typed, keys, vals)
    name = 'Cls' + kind
    if kind == 'dict':
        d = {} if typed is False else {'type': name}
        d.update(zip(keys, want))
        return obj, d
    return obj, tuple(([name] if typed else []) + want)


def lists(x):
    if isinstance(x, dict):
        return {k: lists(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return [lists(v) for v in x]
    return x


def same(a, b, what):
    need(type(a) is type(b), '%s: %s instead of %s', what, type(a), type(b))
    if isinstance(b, dict):
        need(list(a) == list(b), '%s: keys %s, expected %s', what, list(a),
             list(b))
        for k in b:
            same(a[k], b[k], what + '.' + k)
    elif isinstance(b, tuple):
        need(len(a) == len(b), '%s: %r, expected %r', what, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, what + '.%d' % i)
    else:
        need(a == b, '%s: %r, expected %r', what, a, b)


def reprs(ch):
    obj, want = plain(ch, 1)
    for _ in range(2):
        same(obj.to_simple_repr(), want, 'plain form')
    back = eval(repr(obj), {})
    need(back == want, 'repr %s', repr(obj))
    if isinstance(want, dict):
        need(list(back) == list(want), 'order of repr %s', repr(obj))
    ind = ch.pick([None, 2, 4], 'indent')
    kw = {} if ind is None else {'indent': ind}
    txt = obj.to_json(**kw)
    need(json.loads(txt) == lists(want), 'json %s', txt)
    need(('\n' in txt) == (ind is not None and len(want) > 0),
         'json indentation')
    y = obj.to_yaml(**kw)
    if ind == 4 and isinstance(want, dict) and any(
            isinstance(v, dict) and v for v in want.values()):
        need('\n    ' in y, 'yaml indentation %r', y)
    got = yaml.load(y, Loader=yaml.Loader)
    need(lists(got) == lists(want), 'yaml %s', y)
    base = make('dict', None, (), ())
    s = abc.HasSimpleRepr.to_simple_repr(base)
    need(isinstance(s, str) and 'Clsdict' in s, 'fallback form %r', s)
    return str(want)


# -- library objects -------------------------------------------------------

def lib_objects(d):
    from pyhipp import stats
    from pyhipp.stats import kernel, preprocessing, reduction, summary
    from pyhipp.core import arrays
    from pyhipp.core.dataproc import grid
    from pyhipp.field.cubic_box import mesh, cosmic_web
    from pyhipp.field.neighbor import kd_tree
    from pyhipp.io.binary import fortran
    from pyhipp.plot import two_dim
    x = np.array([1., 2., 4., 8., 9.])
    p = os.path.join(d, 'f.bin')
    with open(p, 'wb'):
        pass
    m = mesh.Mesh.new(2, 4.)
    lam = np.zeros((2, 2, 2, 3))
    bf = fortran.BinaryFile(p)
    bf._file.close()
    return {
        'gauss': (kernel.Gaussian(2), dict(sigma=2.)),
        'tophat': (kernel.Tophat(3), dict(radius=3.)),
        'std': (preprocessing.Standardize(np.array([[1.], [3.]])),
                dict(mean=np.array([2.]), sd=np.array([1.]), sd_lb=1e-10)),
        'count': (stats.Count(), dict(key='count', empty_fill=np.array(0))),
        'sum': (stats.Sum(), dict(key='sum', empty_fill=np.array(0))),
        'quantile': (stats.Quantile([.25, .5]), dict(
            ps=np.array([.25, .5]), sort=True)),
        'bootstrap': (None, None),
        'summary': (summary.SummaryFloatArray1D(x), dict(
            size=5, mean=x.mean(), stddev=x.std(), median=4.,
            _1sigma=reduction.Quantile('1sigma')(x),
            _2sigma=reduction.Quantile('2sigma')(x),
            _3sigma=reduction.Quantile('3sigma')(x))),
        'equalbins': (stats.EqualSpaceBins((0., 4.), 8), dict(
            x_range=(0., 4.), n_bins=8, x_span=4., x_step=.5)),
        'edgebins': (stats.BiSearchBins([4., 1., 2.]), dict(
            x_edges=np.array([1., 2., 4.]), n_bins=2, x_span=3.,
            x_step_mean=1.5)),
        'binned': (filled(stats), dict(
            bins={'type': 'EqualSpaceBins', 'x_range': (0., 1.),
                  'n_bins': 2, 'x_span': 1., 'x_step': .5},
            data=np.array([1., 3.]))),
        'grid1': (grid.Grid1d(x), dict(locs=x)),
        'gridmd': (grid.GridMd(x, x[:2]), dict(
            n_dims=2, n_locs=(5, 2), locs_1d=(x, x[:2]))),
        'mesh': (m, dict(n_grids=2, l_box=4., l_grid=2.)),
        'tidal': (cosmic_web.TidalClassifier(lam, m, lam_th=.5), dict(
            mesh={'type': 'Mesh', 'n_grids': 2, 'l_box': 4., 'l_grid': 2.},
            lam_th=.5, web_types=cosmic_web.TidalClassifier.web_types,
            f_knot=0., f_filament=0., f_sheet=0., f_void=1.)),
        'kdtree': (kd_tree.PE(np.array([[1., 1., 1.]]), 4., n_workers=2),
                   dict(l_box=4., n_workers=2)),
        'hist2d': (two_dim.Histogram2D(3, 4, (0., 1.), (2., 3.)), dict(
            x_bins=3, y_bins=4, x_range=(0., 1.), y_range=(2., 3.),
            out_of_range='zero')),
        'binary': (bf, [p, 'rb', {}]),
        'array': (arrays.Array(np.array([[1, 2]])), None),
        'dtype': (arrays.DType('f4'), dict(
            size=4, alignment=4, byte_order='=',
            _impl="dtype('float32')")),
    }


def filled(stats):
    b = stats.binning.BinnedData(stats.EqualSpaceBins((0., 1.), 2))
    b.add(np.array([.1, .6, .7]), np.array([1., 1., 2.]))
    return b


LIB = ['equalbins', 'edgebins', 'binned', 'gauss', 'tophat', 'std', 'count', 'sum', 'quantile', 'summary',
       'grid1', 'gridmd', 'mesh', 'tidal', 'kdtree', 'hist2d', 'binary',
       'array', 'dtype']


def samev(a, b, what):
    if isinstance(b, dict):
        need(isinstance(a, dict) and list(a) == list(b), '%s: %r', what, a)
        for k in b:
            samev(a[k], b[k], what + '.' + k)
    elif isinstance(b, tuple):
        need(len(a) == len(b), '%s: %r', what, a)
        for x, y in zip(a, b):
            samev(x, y, what)
    elif isinstance(b, np.ndarray):
        need(np.shape(a) == b.shape and np.array_equal(a, b),
             '%s: %r, expected %r', what, a, b)
    else:
        need(a == b, '%s: %r, expected %r', what, a, b)


def library(ch):
    name = ch.pick(LIB, 'object')
    d = tempfile.mkdtemp(prefix='mc-c18-')
    try:
        o, want = lib_objects(d)[name]
        for _ in range(2):
            r = o.to_simple_repr()
            need(isinstance(r, dict) and r.get('type') == type(o).__name__
                 and list(r)[0] == 'type', '%s: type of %r', name, r)
            if isinstance(want, list):
                for w in want:
                    need(any(type(v) is type(w) and v == w
                             for v in r.values()), '%s: %r lacks %r', name,
                         r, w)
            elif want is not None:
                samev({k: v for k, v in r.items() if k != 'type'}, want,
                      name)
            else:
                need(r['n_dims'] == 2 and tuple(r['shape']) == (1, 2),
                     '%s: %r', name, r)
            t = repr(o)
            for k in r:
                need(repr(k) in t, '%s: %r not in %s', name, k, t)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return name


# -- completion and text forms of HDF5 managers and tables -------------------

def managers(ch):
    names = [k for k in ('da', 'db', 'dc') if ch.flag(k)]
    sub = ch.flag('group')
    f = mem_file()
    try:
        g = f.create_group('g')
        for k in names:
            g.datasets.create(k, 1)
            g.attrs.create('t' + k, 2)
        if sub:
            g.create_group('dsub')
        ds, at = g.datasets, g.attrs
        need([k for k in dir(ds) if k in ('da', 'db', 'dc', 'dsub')] ==
             names, 'completion of datasets')
        need({'load', 'dump', 'keys'} <= set(dir(ds)) and
             {'load', 'dump', 'keys'} <= set(dir(at)), 'methods listed')
        need([k for k in dir(at) if k in ('tda', 'tdb', 'tdc')] ==
             ['t' + k for k in names], 'completion of attributes')
        need(repr(ds) == f'DatasetManager(keys={ds.keys()!r})' and
             repr(at) == f'AttrManager(keys={at.keys()!r})',
             'text of the managers')
        for k in names:
            need(k in repr(ds) and 't' + k in repr(at), 'names in text')
            need(repr(g[k]).startswith('Dataset('), 'dataset text')
        need(repr(g).startswith('Group(') and repr(f).startswith('File('),
             'group text')
        t = DataTable({k: np.arange(2) for k in names})
        need([k for k in dir(t) if k in ('da', 'db', 'dc')] == names and
             'subset' in dir(t), 'completion of a table')
        for x, k in itertools.product((ds, at, t), ('nothing',)):
            o = outcome(getattr, x, k)
            need(o[0] == 'err' and isinstance(o[1], AttributeError),
                 'missing name gives %r', o[1])
    finally:
        f.close()
    return tuple(names), sub


# -- logs --------------------------------------------------------------------

class Logs(System):
    @staticmethod
    def inits():
        return [(v, n) for v in (False, True) for n in (None, 'nm', 7)]

    def __init__(self, init):
        v, n = init
        cls = type('Worker', (abc.HasLog,), {})
        kw = {} if n is None else {'name': n}
        self.o = cls(verbose=v, **kw) if v else cls(**kw)
        self.v, self.n = v, 'Worker' if n is None else str(n)

    def canon(self):
        return self.v, self.n

    def ops(self):
        o = [('on',), ('off',)]
        o += [('log', a, named, timed, end, sep) for a in (0, 1, 3)
              for named in (True, False) for timed in (True, False, 'fmt')
              for end, sep in ((None, None), ('!', '-'))]
        return o

    def apply(self, op):
        o = self.o
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            if op[0] == 'on':
                o.verbose_on()
                self.v = True
            elif op[0] == 'off':
                o.verbose_off()
                self.v = False
            else:
                _, n, named, timed, end, sep = op
                args = [1, 'two', [3]][:n]
                kw = {'named': named}
                if timed:
                    kw['timed'] = True
                if timed == 'fmt':
                    kw['time_fmt'] = 'T%Y'
                if end is not None:
                    kw.update(end=end, sep=sep)
                o.log(*args, **kw)
        out = buf.getvalue()
        need(o.verbose == self.v and o.name == self.n, 'state')
        if op[0] != 'log' or not self.v:
            need(out == '', 'printed %r', out)
            return
        end, sep = ('\n', '') if end is None else (end, sep)
        pre = (r'\[%s\]' % re.escape(self.n)) if named else ''
        if timed == 'fmt':
            pre += r'\[T\d{4}\]'
        elif timed:
            pre += r'\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\]'
        parts = [re.escape(str(a)) for a in args]
        if pre:
            # one separator-joined line: prefix, a blank, the items
            pat = re.escape(sep).join([pre, ' '] + parts)
        else:
            pat = re.escape(sep).join(parts)
        need(re.fullmatch(pat + re.escape(end), out) is not None,
             'printed %r, expected %s', out, pat)


def scenarios(tier):
    q = tier == 'quick'
    return [Tree('keylists', keylists(3 if q else 5)), Tree('reprs', reprs),
            Tree('library', library), Tree('managers', managers),
            Bfs('logs', Logs, 2 if q else 3)]
