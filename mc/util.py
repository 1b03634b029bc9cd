"""Comparison helpers shared by the harnesses."""
import numpy as np

from .engine import Violation


def need(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg % args if args else msg, key=key)


def raises(fn, *types):
    """True when fn() raises one of types (any Exception by default)."""
    types = types or (Exception,)
    try:
        fn()
    except types:
        return True
    return False


def outcome(fn, *a, **k):
    try:
        return ('ok', fn(*a, **k))
    except Exception as e:      # noqa
        return ('err', e)


def eq(a, b, what='value', dtype=False):
    """Exact equality of arrays/scalars, shapes included (nan == nan)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f'{what}: shape {a.shape}, expected {b.shape}; '
                        f'got {_s(a)}, expected {_s(b)}')
    if dtype and a.dtype != b.dtype:
        raise Violation(f'{what}: dtype {a.dtype}, expected {b.dtype}')
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        ok = np.array_equal(a, b, equal_nan=True)
    else:
        ok = np.array_equal(a, b)
    if not ok:
        raise Violation(f'{what}: got {_s(a)}, expected {_s(b)}')


def close(a, b, what='value', rtol=1e-9, atol=1e-12, shape=True):
    a, b = np.asarray(a), np.asarray(b)
    if shape and a.shape != b.shape:
        raise Violation(f'{what}: shape {a.shape}, expected {b.shape}; '
                        f'got {_s(a)}, expected {_s(b)}')
    if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
        raise Violation(f'{what}: got {_s(a)}, expected {_s(b)}')


def _s(a):
    s = ' '.join(repr(a.tolist() if isinstance(a, np.ndarray) else a).split())
    return s if len(s) < 300 else s[:297] + '...'


class Frozen:
    """Remembers the contents of inputs and checks that nobody changed them."""

    def __init__(self, **arrs):
        self.ref = {k: (v, v.copy()) for k, v in arrs.items()
                    if isinstance(v, np.ndarray)}

    def check(self, what='call'):
        for k, (v, c) in self.ref.items():
            if v.shape != c.shape or v.tobytes() != c.tobytes():
                raise Violation(f'{what} modified its input {k}: '
                                f'{_s(c)} -> {_s(v)}')


def rnd(x, n=6):
    """Stable fingerprint of a numeric outcome."""
    a = np.asarray(x)
    if a.dtype.kind in 'fc':
        return tuple(np.round(a.astype(complex if a.dtype.kind == 'c'
                                       else float).ravel(), n).tolist())
    return tuple(a.ravel().tolist())
