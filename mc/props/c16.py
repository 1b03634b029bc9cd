"""Nested tables to spreadsheet sheets and back (in-memory sheets)."""
import numpy as np
import pandas as pd

from pyhipp.core import DataTable
from pyhipp.io.excel import Excel

from ..engine import Tree
from ..util import need, outcome, eq

LEVEL = 'exploration'
RULE = ('every nested dictionary of the alphabet through dump and load; '
        'distinct by the case')
ASSUMPTIONS = ['no spreadsheet engine is installed: a recording writer and '
               'reader stand in for the file format',
               'keys contain no dot unless stated']
BOUNDS = {'quick': 'nested dictionaries of depth <= 3 with 1-2 keys per '
                   'level, prefix, index, number format, reorder and table '
                   'options; 9 x 9 names with blanks, empty '
                   'parts and leading dots', 'thorough': 'the same with up to 3 keys at the '
                   'top'}
NTOP = 2

SHEETS = {}


class Writer(pd.ExcelWriter):
    """Keeps what pandas hands to a spreadsheet engine."""
    _engine = 'mcstub'
    _supported_extensions = ('.mcx',)

    def __init__(self, path, engine=None, **kw):
        self._path = str(path)
        self._date_format = 'YYYY-MM-DD'
        self._datetime_format = 'YYYY-MM-DD HH:MM:SS'
        self._mode = 'w'
        self.cells = {}
        self.fmts = {}
        self.open = True
        self._cur_sheet = None

    def __new__(cls, path, engine=None, **kw):
        return object.__new__(cls)

    @property
    def sheets(self):
        return self.cells

    @property
    def book(self):
        return None

    def _write_cells(self, cells, sheet_name=None, startrow=0, startcol=0,
                     freeze_panes=None, **kw):
        need(self.open, 'written after closing')
        if sheet_name in self.cells:
            raise AssertionError(f'sheet {sheet_name} written twice')
        self.cells[sheet_name] = {(c.row, c.col): c.val for c in cells}

    def _save(self):
        SHEETS[self._path] = self.cells

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._save()
        self.open = False

    def close(self):
        self._save()
        self.open = False


class Reader(pd.ExcelFile):
    """Gives the recorded sheets to pandas.read_excel."""

    def __init__(self, sheets):
        self.sheets = sheets
        self._reader = self
        self.sheet_names_ = list(sheets)

    @property
    def sheet_names(self):
        return self.sheet_names_

    def parse(self, sheet_name=0, **kw):
        if sheet_name is not None:
            return self.sheets[self.sheet_names_[sheet_name] if isinstance(
                sheet_name, int) else sheet_name].copy()
        return {k: v.copy() for k, v in self.sheets.items()}

    def close(self):
        pass

    def __del__(self):
        pass

    def __exit__(self, *a):
        pass


FRAMES = {
    'one': pd.DataFrame({'x': [1.25]}),
    'two': pd.DataFrame({'a': [1, 2, 3], 'b': [.5, 1.123, -2.]}),
    'none': pd.DataFrame({'c': np.zeros(0)}),
}


def tables(ch, depth, nmax, what):
    keys = ['p', 'q', 'r'][:ch.pick(list(range(1, nmax + 1)), f'{what} keys')]
    out = {}
    for k in keys:
        kind = ch.pick(['one', 'two', 'none'] + (['dict'] if depth > 1 else
                                                 []), f'{what}{k}')
        out[k] = tables(ch, depth - 1, 1 if depth > 2 else 2,
                        what + k + '.') if kind == 'dict' else FRAMES[kind]
    return out


def flat(d, pre):
    out = {}
    for k, v in d.items():
        p = f'{pre}.{k}' if pre else k
        if isinstance(v, dict):
            out.update(flat(v, p))
        else:
            out[p] = v
    return out


def same_frame(got, want, what):
    need(isinstance(got, pd.DataFrame) and list(got.columns) ==
         list(want.columns), '%s: columns', what)
    for c in want.columns:
        eq(got[c].to_numpy(), want[c].to_numpy(), f'{what}.{c}')


def same_tree(got, want, as_t, what=''):
    need(list(got) == list(want), '%s: keys %s, expected %s', what,
         list(got), list(want))
    for k, v in want.items():
        if isinstance(v, dict):
            need(type(got[k]) is dict, '%s%s is a %s', what, k, type(got[k]))
            same_tree(got[k], v, as_t, what + k + '.')
        elif as_t:
            need(isinstance(got[k], DataTable), '%s%s is a %s', what, k,
                 type(got[k]).__name__)
            need(list(got[k].keys()) == list(v.columns), 'columns')
            for c in v.columns:
                eq(got[k][c], v[c].to_numpy(), f'{what}{k}.{c}')
        else:
            same_frame(got[k], v, what + k)


def cells_to_frame(cells, index):
    ncol = max(c for _, c in cells) + 1
    nrow = max(r for r, _ in cells)
    off = 1 if index else 0
    cols = [cells[0, c] for c in range(off, ncol)]
    return pd.DataFrame({
        n: [cells[r, c + off] for r in range(1, nrow + 1)]
        for c, n in enumerate(cols)})


def excel_body(ch):
    d = tables(ch, 3, NTOP, '')
    prefix = ch.pick(['', 'pre'], 'prefix')
    index = ch.flag('index')
    fmt = ch.pick([None, '%.1f'], 'float_format')
    how = ch.pick(['writer', 'file'], 'destination')
    kw = dict(index=index, float_format=fmt)
    if prefix:
        kw['sheet_prefix'] = prefix
    if how == 'writer':
        w = Writer('mem.mcx')
        Excel.dump_file(w, d, **kw)
        cells = w.cells
    else:
        pd.io.excel._util._writers.setdefault('mcstub', Writer)
        SHEETS.clear()
        real = pd.ExcelWriter

        class Ctor(type):
            def __instancecheck__(cls, o):
                return isinstance(o, real)

        class Stub(metaclass=Ctor):
            def __new__(cls, path, *a, **k):
                return Writer(path)
        pd.ExcelWriter = Stub
        try:
            Excel.dump_file('book.mcx', d, **kw)
        finally:
            pd.ExcelWriter = real
        need(list(SHEETS) == ['book.mcx'], 'files %r', list(SHEETS))
        cells = SHEETS['book.mcx']
    want = flat(d, prefix)
    need(list(cells) == list(want), 'sheets %s, expected %s', list(cells),
         list(want))
    sheets = {}
    for k, v in want.items():
        c = cells[k]
        got = cells_to_frame(c, index)
        w = v if fmt is None else v.map(
            lambda x: float(fmt % x) if isinstance(x, float) else x)
        same_frame(got, w, k)
        if index:
            need([c.get((r + 1, 0)) for r in range(len(v))] ==
                 list(range(len(v))), '%s: index column', k)
        sheets[k] = v
    # and back
    as_t = ch.flag('as_datatables')
    re = ch.flag('reorder')
    fz = {k: v.copy() for k, v in sheets.items()}
    got = Excel.load_file(Reader(sheets), as_datatables=as_t, reorder=re)
    nested = {prefix: d} if prefix else d
    same_tree(got, nested if re else sheets, as_t)
    if not as_t and re:
        same_tree(Excel.load_file(Reader(sheets)), nested, False)
    for k in fz:
        same_frame(sheets[k], fz[k], 'source ' + k)
    return (list(want), prefix, index, fmt, how, as_t, re,
            [len(v) for v in want.values()])


NAMES = ['a', '', ' a', 'a ', 'b c', '1', '\u00e9', 'A', '-']


def names_body(ch):
    """Unusual names; a table on its own."""
    k = ch.pick(NAMES, 'outer')
    k2 = ch.pick(NAMES, 'inner')
    prefix = ch.pick(['', 'pre', ' ', 'u.v'], 'prefix')
    one, two = FRAMES['one'], FRAMES['two']
    d = {k: {k2: one, 'z': two}, 'end': one}
    w = Writer('mem.mcx')
    if k or prefix:
        Excel.dump_file(w, d, sheet_prefix=prefix)

    def join(*a):
        out = prefix
        for x in a:
            out = out + '.' + x if out else x
        return out
    want = {join(k, k2): one, join(k, 'z'): two, join('end'): one}
    if k or prefix:
        need(list(w.cells) == list(want), 'sheets %r, expected %r',
             list(w.cells), list(want))
    if prefix:
        w = Writer('mem.mcx')
        Excel.dump_file(w, two, prefix)
        need(list(w.cells) == [prefix], 'sheets %r', list(w.cells))
        same_frame(cells_to_frame(w.cells[prefix], False), two, 'one table')
    # reading: names are split at every dot
    sheets = {k + '.' + k2: one, k + '.' + k2 + 'x.y': two, '.t.': one,
              'q': two}
    got = Excel.load_file(Reader(sheets))
    same_tree(got, {k: {k2: one, k2 + 'x': {'y': two}},
                    '': {'t': {'': one}}, 'q': two} if k else
              {'': {k2: one, k2 + 'x': {'y': two}, 't': {'': one}},
               'q': two}, False)
    got = Excel.load_file(Reader(sheets), reorder=False)
    same_tree(got, sheets, False)
    return k, k2, prefix


def scenarios(tier):
    global NTOP
    NTOP = 2 if tier == 'quick' else 3
    return [Tree('excel', excel_body), Tree('names', names_body)]
