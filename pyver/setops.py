"""np.unique / intersect1d / union1d / setdiff1d / isin on symbolic 1-d arrays"""
import z3
from . import core
from .core import S, wrap, term, rterm, bterm, is_sym, Unsupported, b_and, b_or, b_not
from .arrays import as_arr, SArr
from .filters import SortedSet, array_member


def _elems(a):
    a = as_arr(a)
    if a.ndim != 1:
        a = a.ravel()
    if all(not is_sym(s) for s in a.shape):
        vs = [a.at(k) for k in range(a.shape[0])]
        if all(not is_sym(v) for v in vs):
            return vs
    return None


def _const(vs):
    return as_arr(sorted(set(vs)))


def unique(a, axis=None, return_index=False, **kw):
    if kw or return_index:
        raise Unsupported("np.unique options")
    if axis is not None:
        return _unique_rows(as_arr(a), axis)
    vs = _elems(a)
    if vs is not None:
        return _const(vs)
    a = as_arr(a)
    if a.props.get('increasing'):
        return a
    return SortedSet(array_member(a)).array()


def _unique_rows(a, axis):
    """np.unique(a, axis=0) of a concrete number of rows: one row when they are all equal, otherwise between two and all of
    them (their contents and order are left unspecified)"""
    from . import npops
    n = a.shape[0]
    if axis != 0 or a.ndim < 2 or is_sym(n) or n == 0:
        raise Unsupported("np.unique along an axis")
    rows = [a[k] for k in range(n)]
    if all(bool(npops.all_(rows[0] == r)) for r in rows[1:]):
        return rows[0][None]
    m = 2 if n == 2 else wrap(z3.Int(core.fresh_name('UNIQ_N')))
    if n > 2:
        core.assume(b_and(m >= 2, m <= n))
    f = z3.Function(core.fresh_name('UNIQ'), *([core.I] * a.ndim + [core.R]))
    return SArr((m,) + tuple(a.shape[1:]), lambda i: wrap(f(*[term(x) for x in i])), a.dtype.kind)


def _two(a, b, op, cop):
    va, vb = _elems(a), _elems(b)
    if va is not None and vb is not None:
        return _const(cop(set(va), set(vb)))
    ma, mb = array_member(as_arr(a)), array_member(as_arr(b))
    a, b = as_arr(a), as_arr(b)
    return SortedSet(lambda x: op(ma(x), mb(x)), sources=[v.props['posF'] for v in (a, b) if 'posF' in v.props]).array()


def intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        raise Unsupported("intersect1d indices")
    return _two(a, b, lambda x, y: b_and(x, y), lambda x, y: x & y)


def union1d(a, b):
    return _two(a, b, lambda x, y: b_or(x, y), lambda x, y: x | y)


def setdiff1d(a, b, assume_unique=False):
    return _two(a, b, lambda x, y: b_and(x, b_not(y)), lambda x, y: x - y)
