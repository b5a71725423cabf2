"""Results as comparable plain values."""
import numpy as np


def canon(x):
    """Results as comparable plain values."""
    from tractor.patch import Patch
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, np.ndarray):
        return ('a', x.shape, np.asarray(x, float))
    if isinstance(x, Patch):
        if x.patch is None:
            return None
        return ('p', int(x.x0), int(x.y0), np.asarray(x.patch, float))
    if isinstance(x, dict):
        return {k: canon(v) for k, v in sorted(x.items()) if k not in ('full_report', 'brief_report') and 'time' not in k}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if hasattr(x, 'getInvError'):
        return 'image ' + str(x.name)
    return type(x).__name__


def same(a, b, tol=1e-6):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        fin = np.isfinite(a)
        if not np.array_equal(fin, np.isfinite(b)):
            return False
        if not np.any(fin):
            return True
        return bool(np.max(np.abs(a[fin] - b[fin])) <= tol * max(np.max(np.abs(b[fin])), 1e-12))
    if isinstance(a, float) or isinstance(b, float):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a == b
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-9
    return a == b


def short(x):
    s = repr(x)
    return s if len(s) < 800 else s[:800] + '...'


def why(a, b, tol=1e-6, path=''):
    """Where two results differ first."""
    if same(a, b, tol):
        return 'no difference'
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: keys %s vs %s' % (path, sorted(a), sorted(b))
        for k in a:
            if not same(a[k], b[k], tol):
                return why(a[k], b[k], tol, path + '.' + str(k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d items vs %d' % (path, len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            if not same(x, y, tol):
                return why(x, y, tol, path + '[%d]' % k)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
        d = np.abs(a - b)
        i = np.unravel_index(np.nanargmax(d), d.shape) if np.any(np.isfinite(d)) else None
        return '%s: arrays of shape %s differ by up to %r (largest value %r), at %s' % (path, a.shape, float(np.nanmax(d)), float(np.nanmax(np.abs(b))), i)
    return '%s: %s vs %s' % (path, short(a), short(b))
