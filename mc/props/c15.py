"""Fortran unformatted binary files."""
import os
import shutil
import struct
import tempfile
from pathlib import Path

import numpy as np

from pyhipp.io.binary.fortran import BinaryFile

from ..engine import Bfs, System, Tree
from ..util import need, outcome, eq

LEVEL = 'model_checking'
ASSUMPTIONS = ['4-byte native markers', 'non-negative record counts',
               'marker values are only compared with each other',
               'the position after a failed or short read is not claimed']
BOUNDS = {'quick': 'all read histories of depth 4 over 34 operations on 3 '
                   'files; all truncation points and marker corruptions of '
                   'all files of <= 3 sections',
          'thorough': 'depth 5, <= 4 sections'}

DT = {'i4': np.int32, 'f8': np.float64, 'f4': 'f4', 'u1': np.dtype('u1'),
      'be': '>i2', 'rec': np.dtype([('id', 'i4'), ('x', 'f8')])}


def payload(dt, n, seed=1):
    """n items as (None: one scalar)."""
    m = 1 if n is None else n
    d = np.dtype(DT[dt])
    if d.names:
        a = np.zeros(m, dtype=d)
        a['id'] = np.arange(m) + seed
        a['x'] = np.arange(m) * .5 - seed
        return a
    return (np.arange(m) * 3 + seed).astype(d)


def section(dt, n, seed=1):
    b = payload(dt, n, seed).tobytes()
    m = struct.pack('=i', len(b))
    return m + b + m


FILES = {
    'plain': [('i4', 3), ('f8', 2)],
    'mixed': [('rec', 2), ('u1', 5), ('be', None)],
    'zero': [('i4', 0), ('f4', 1), ('f8', None)],
}


def scalar_same(got, want, what):
    got = np.asarray(got)
    need(got.shape == want.shape and got.dtype == want.dtype and
         got.tobytes() == want.tobytes(), '%s: %r, expected %r', what, got,
         want)


class S(System):
    @staticmethod
    def inits():
        return sorted(FILES)

    def __init__(self, init):
        self.d = tempfile.mkdtemp(prefix='mc-c15-')
        self.init = init
        self.b = b''.join(section(dt, n, i + 1)
                          for i, (dt, n) in enumerate(FILES[init]))
        path = os.path.join(self.d, 'f.bin')
        with open(path, 'wb') as f:
            f.write(self.b)
        self.f = BinaryFile(Path(path) if init == 'plain' else path)
        self.pos = 0
        self.closed = False

    def close(self):
        self.f.__exit__(None, None, None)
        shutil.rmtree(self.d, ignore_errors=True)

    def canon(self):
        return (self.init, self.pos)

    def ops(self):
        out = []
        dts = sorted({dt for dt, _ in FILES[self.init]} | {'i4'})
        for dt in dts:
            for n in (None, 0, 1, 2, 3):
                out += [('load', dt, n), ('skip', dt, n)]
        for dt, n in FILES[self.init]:
            out += [('lsect', dt, n), ('ssect', dt, n)]
        out += [('bytes', 0), ('bytes', 3), ('bytes', 8), ('bytes', -1),
                ('seek', 0, 0), ('seek', 4, 0), ('seek', 5, 1),
                ('seek', -4, 2), ('seek', 0, 2)]
        return out

    def take(self, dt, n):
        """-> (array, complete) at the reference position, which advances."""
        d = np.dtype(DT[dt])
        m = 1 if n is None else n
        raw = self.b[self.pos:self.pos + m * d.itemsize]
        k = len(raw) // d.itemsize
        a = np.frombuffer(raw[:k * d.itemsize], dtype=d)
        self.pos += m * d.itemsize
        return a, k == m

    def restore(self, pos):
        self.f.seek(pos)
        self.pos = pos

    def apply(self, op):
        f, p0 = self.f, self.pos
        k = op[0]
        if k == 'load':
            a, full = self.take(op[1], op[2])
            o = outcome(f.load_rec, DT[op[1]], op[2]) if op[2] is not None \
                else outcome(f.load_rec, DT[op[1]])
            if op[2] is None and not full:
                need(o[0] == 'err', 'scalar past the end gives %r', o[1])
            else:
                need(o[0] == 'ok', 'load_rec: %r', o[1])
                scalar_same(o[1], a[0] if op[2] is None else a, 'load_rec')
            if not full:
                self.restore(p0)
        elif k == 'skip':
            f.skip_rec(DT[op[1]], op[2]) if op[2] is not None else \
                f.skip_rec(DT[op[1]])
            self.take(op[1], op[2])
        elif k in ('lsect', 'ssect'):
            n1, ok1 = self.take('i4', 1)
            a, ok = self.take(op[1], op[2])
            n2, ok2 = self.take('i4', 1)
            fn = f.load_sect if k == 'lsect' else f.skip_sect
            o = outcome(fn, DT[op[1]], op[2]) if op[2] is not None else \
                outcome(fn, DT[op[1]])
            if ok1 and ok2 and ok and n1[0] == n2[0]:
                need(o[0] == 'ok', '%s: %r', k, o[1])
                if k == 'lsect':
                    scalar_same(o[1], a[0] if op[2] is None else a, k)
                else:
                    need(o[1] is None, 'skip_sect returns %r', o[1])
            else:
                need(o[0] == 'err', '%s of a broken section gives %r', k,
                     o[1])
                self.restore(p0)
        elif k == 'bytes':
            got = f.load_bytes(op[1]) if op[1] >= 0 else f.load_bytes()
            want = self.b[self.pos:] if op[1] < 0 else \
                self.b[self.pos:self.pos + op[1]]
            need(got == want, 'load_bytes(%r) = %r, expected %r', op[1], got,
                 want)
            self.pos += len(want)
        elif k == 'seek':
            got = f.seek(op[1], op[2]) if op[2] else f.seek(op[1])
            self.pos = {0: 0, 1: self.pos, 2: len(self.b)}[op[2]] + op[1]
            need(got == self.pos, 'seek gives %r, expected %r', got, self.pos)
        # where the cursor is now
        need(f.seek(0, 1) == self.pos, 'after %r the cursor is at %d, '
             'expected %d', op, f.seek(0, 1), self.pos)


NSECT = 3
SECTS = [('i4', 2), ('f8', 1), ('u1', 3), ('rec', 1), ('f4', None),
         ('be', 0)]


def faults_body(ch):
    """Every truncation point and every marker corruption of a file."""
    k = ch.pick(list(range(1, NSECT + 1)), 'sections')
    sects = [ch.pick(SECTS if i < 2 else SECTS[:3], f's{i}')
             for i in range(k)]
    parts = [section(dt, n, i + 1) for i, (dt, n) in enumerate(sects)]
    b = b''.join(parts)
    ends = np.cumsum([len(p) for p in parts]).tolist()
    how = ch.pick(['whole', 'cut', 'lead', 'trail'], 'fault')
    bad = k                     # index of the first broken section
    if how == 'cut':
        cut = ch.pick(list(range(len(b))), 'bytes kept')
        bad = sum(e <= cut for e in ends)
        b = b[:cut]
    elif how in ('lead', 'trail'):
        bad = ch.pick(list(range(k)), 'section')
        at = (ends[bad] - len(parts[bad])) if how == 'lead' else ends[bad] - 4
        by = ch.pick([0, 1, 3], 'byte')
        bit = ch.pick([1, 0x80], 'bit')
        b = bytearray(b)
        b[at + by] ^= bit
        b = bytes(b)
    mode = ch.pick(['load', 'skip', 'mix'], 'mode')
    d = tempfile.mkdtemp(prefix='mc-c15-')
    try:
        path = os.path.join(d, 'f.bin')
        with open(path, 'wb') as f:
            f.write(b)
        kw = ch.pick([{}, {'mode': 'rb', 'open_kw': {'buffering': 0}}],
                     'open')
        with BinaryFile(path, **kw) as f:
            need(isinstance(f, BinaryFile) and 'BinaryFile' in repr(f),
                 'context')
            for i, (dt, n) in enumerate(sects):
                load = mode == 'load' or (mode == 'mix' and i % 2)
                fn = f.load_sect if load else f.skip_sect
                o = outcome(fn, DT[dt], n)
                if i >= bad:
                    need(o[0] == 'err', 'section %d (%s) accepted: %r', i,
                         how, o[1])
                    break
                need(o[0] == 'ok', 'section %d: %r', i, o[1])
                if load:
                    w = payload(dt, n, i + 1)
                    scalar_same(o[1], w[0] if n is None else w,
                                f'section {i}')
            else:
                need(f.load_bytes() == b'', 'bytes left at the end')
                need(f.seek(0) == 0 and f.load_bytes() == b, 'reread')
        need(outcome(f.load_bytes)[0] == 'err', 'file open after with')
        with open(path, 'rb') as f:
            need(f.read() == b, 'file changed')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return (tuple(sects), how, mode, len(b), len(kw))


def open_body(ch):
    """The mode and the options reach open()."""
    mode = ch.pick([None, 'rb', 'r+b', 'wb', 'xb', 'ab'], 'mode')
    pre = ch.flag('file exists')
    how = ch.pick(['default', 'empty', 'opener', 'buffering'], 'options')
    d = tempfile.mkdtemp(prefix='mc-c15-')
    try:
        path = os.path.join(d, 'f.bin')
        b = section('i4', 3)
        if pre:
            with open(path, 'wb') as f:
                f.write(b)
        opened = []

        def opener(p, flags):
            opened.append(os.fspath(p))
            return os.open(p, flags, 0o600)
        kw = {} if mode is None else {'mode': mode}
        if how != 'default':
            kw['open_kw'] = {'empty': {}, 'opener': {'opener': opener},
                             'buffering': {'buffering': 0}}[how]
        o = outcome(BinaryFile, Path(path), **kw)
        ok = not pre if mode == 'xb' else pre or mode in ('wb', 'ab')
        need((o[0] == 'ok') == ok, 'mode %s, file %s: %r', mode, pre, o[1])
        need((opened == [path]) == (how == 'opener'), 'opener calls %r',
             opened)
        with open(path, 'rb') if os.path.exists(path) else \
                open(os.devnull, 'rb') as r:
            now = r.read()
        need(now == (b'' if mode == 'wb' or not pre else b),
             'content after opening with %s', mode)
        if ok:
            with o[1] as f:
                if mode in (None, 'rb', 'r+b'):
                    eq(f.load_sect(np.int32, 3), payload('i4', 3), 'section')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return (mode, pre, how)


def forms_body(ch):
    """Array-valued items, long sections, an exception inside `with`."""
    dt = ch.pick(['3f4', '(2,2)i2', 'S5', 'c16', 'M8[s]', '?', 'S0'], 'type')
    n = ch.pick([None, 0, 1, 3, 40000], 'n')
    fail = ch.pick([None, KeyError, KeyboardInterrupt, StopIteration],
                   'exception')
    t = np.dtype(dt)
    if t.itemsize == 0:
        return None
    m = 1 if n is None else n
    raw = bytes((i * 7 + i // 251) % 2 if dt == '?' else
                (i * 7 + i // 251) % 251 for i in range(t.itemsize * m))
    mark = struct.pack('=i', len(raw))
    d = tempfile.mkdtemp(prefix='mc-c15-')
    try:
        path = os.path.join(d, 'f.bin')
        with open(path, 'wb') as f:
            f.write((mark + raw + mark) * 2 + b'tail')
        want = np.frombuffer(raw, dtype=t)
        e = fail('stop') if fail else None
        try:
            with BinaryFile(path) as f:
                for fn in ('skip_sect', 'load_sect'):
                    got = getattr(f, fn)(t if fail else dt, n)
                    if fn == 'load_sect':
                        w = want[0] if n is None else want
                        got = np.asarray(got)
                        w = np.asarray(w)
                        need(got.shape == w.shape and got.dtype == w.dtype
                             and got.tobytes() == w.tobytes(),
                             'section of %s x %s', dt, n)
                need(f.load_bytes(2) == b'ta', 'after the sections')
                f.seek(4)
                f.skip_rec(t, n)
                need(f.load_bytes(4) == mark, 'after skip_rec')
                f.seek(4)
                need(np.asarray(f.load_rec(t, m)).tobytes() == raw, 'records')
                need(f.load_bytes(4) == mark, 'after load_rec')
                p = f.seek(0, 1)
                o = outcome(f.seek, -1)
                need(o[0] == 'err', 'position before the file: %r', o[1])
                o = outcome(f.seek, -p - 1, 1)
                need(o[0] == 'err', 'position before the file: %r', o[1])
                need(f.seek(0, 1) == p, 'position after a refused seek')
                if e is not None:
                    raise e
            need(fail is None, 'exception lost')
        except (KeyError, KeyboardInterrupt, StopIteration) as got:
            need(got is e, 'another exception: %r', got)
        need(outcome(f.load_bytes)[0] == 'err' and
             outcome(f.seek, 0)[0] == 'err', 'file open after with')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return (dt, n, str(fail))


def scenarios(tier):
    global NSECT
    q = tier == 'quick'
    NSECT = 3 if q else 4
    return [Tree('faults', faults_body), Tree('open', open_body),
            Tree('forms', forms_body),
             Bfs('reads', S, 4 if q else 5)]
