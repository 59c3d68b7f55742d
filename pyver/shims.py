"""Trusted contracts of the dependencies, as shim modules (numpy, scipy, pandas ...).  Anything not listed is opaque: using it
makes the obligation undecided, never proved."""
from fractions import Fraction
import math
import types
import z3
from . import core, npops, arrays
from .core import SNum, SBool, is_sym, wrap, term, rterm, Unsupported
from .arrays import SArr


def _mk(name):
    from .instrument import ShimModule
    return ShimModule(name)


class _Kind:
    def __init__(self, name, kind, conv):
        self.__name__ = name
        self._pv_kind = kind
        self.conv = conv

    def __call__(self, x=0):
        return self.conv(x)

    def __instancecheck__(self, x):
        return False


def ew(f):
    return lambda x, *a, **k: npops.apply1(f, x)


def ew2(f, kind=None):
    def g(a, b, out=None, **k):
        r = arrays.elementwise(f, [a, b], kind)
        return r
    return g


def newton_cotes(rn, equal=0):
    """exact closed Newton-Cotes weights for unit spacing (trusted: scipy.integrate.newton_cotes(n, 1))"""
    if is_sym(rn):
        rn = int(rn)
    n = int(rn)
    xs = [Fraction(i) for i in range(n + 1)]
    w = []
    for i in range(n + 1):
        # integral over [0,n] of the Lagrange basis polynomial
        poly = [Fraction(1)]
        den = Fraction(1)
        for j in range(n + 1):
            if j == i:
                continue
            new = [Fraction(0)] * (len(poly) + 1)
            for d, c in enumerate(poly):
                new[d + 1] += c
                new[d] -= c * xs[j]
            poly = new
            den *= xs[i] - xs[j]
        integ = sum(c * Fraction(n) ** (d + 1) / (d + 1) for d, c in enumerate(poly))
        w.append(integ / den)
    return arrays.from_list(w), Fraction(0)


def comb(n, k, exact=False):
    n, k = int(n), int(k)
    return math.comb(n, k)


def vectorize(f, **kw):
    """the function is evaluated here, once, at a generic element"""
    if kw:
        raise Unsupported(f"vectorize {sorted(kw)}")

    def g(*xs):
        a = arrays.elementwise(lambda *v: f(*v), list(xs), 'f')
        if not isinstance(a, SArr):
            return a
        get = a.getter()
        ks = [core.bvar('?v') for _ in a.shape]
        conds = [c for k, n in zip(ks, a.shape) for c in (k >= 0, k < n)]
        with core.Scope(*conds):
            v = rterm(core.merged(lambda: get(tuple(ks)), 'vectorize'))
        return SArr(a.shape, lambda idx: wrap(z3.substitute(v, *[(k.t, term(i)) for k, i in zip(ks, idx)])), 'f')
    return g


def log2(x):
    if is_sym(x):
        return wrap(core.ufd('log2', core.R, core.R)(rterm(x)))
    f = core.to_frac(x)
    for n in range(-60, 61):
        if Fraction(2) ** n == f:
            return Fraction(n)
    return Fraction(math.log2(f))


def npint(x):
    return arrays.trunc(x) if is_sym(x) else int(x)


def npfloat(x):
    if isinstance(x, SArr):
        return x.astype(float)
    return wrap(rterm(x)) if is_sym(x) else core.to_frac(x)


def table():
    t = {}
    np = _mk('numpy')
    d = np.__dict__
    d.update(ndarray=SArr, newaxis=None, e=core.wrap(z3.Real('e_const')), nan=float('nan'), inf=float('inf'))
    for n in ('zeros', 'ones', 'full', 'empty', 'eye', 'arange', 'linspace', 'logspace', 'geomspace', 'indices', 'squeeze',
              'expand_dims', 'matmul', 'dot', 'outer', 'einsum', 'stack', 'concatenate', 'hstack', 'vstack', 'block', 'diff',
              'take', 'where', 'nonzero', 'diag', 'triu', 'tril', 'triu_indices', 'tril_indices', 'isin', 'clip',
              'array_equal', 'polyfit', 'count_nonzero', 'sort', 'argsort', 'isclose', 'allclose', 'moveaxis', 'swapaxes', 'mean', 'repeat', 'piecewise', 'argmin', 'argmax', 'array_split'):
        d[n] = getattr(npops, n)
    d['identity'] = npops.eye
    d['vectorize'] = vectorize
    d['sum'] = npops.sum_
    d['all'] = npops.all_
    d['any'] = npops.any_
    d['max'] = d['amax'] = npops.amax
    d['min'] = d['amin'] = npops.amin
    d['transpose'] = arrays.transpose
    d['ravel'] = lambda a, order='C': npops.ravel(a, order)
    d['reshape'] = lambda a, shape, order='C': npops.reshape(a, shape if isinstance(shape, (tuple, list)) else (shape,),
                                                            order)

    def array(x, dtype=None, copy=True, order=None, ndmin=0):
        if type(dtype).__name__ == 'StrType':
            return [str(l) for l in x]
        a = arrays.as_arr(x)
        a = a.copy()
        return a.astype(dtype) if dtype is not None else a

    def asarray(x, dtype=None, order=None):
        a = arrays.as_arr(x)
        return a.astype(dtype) if dtype is not None and arrays.kind_of_dtype(dtype) != a.dtype.kind else a
    d['array'] = array
    d['asarray'] = d['atleast_1d_'] = asarray
    d['atleast_1d'] = lambda x: (lambda a: a if a.ndim else a.reshape((1,)))(arrays.as_arr(x))
    d['zeros_like'] = lambda a, dtype=None: npops.zeros(arrays.as_arr(a).shape, dtype or arrays.as_arr(a).dtype)
    d['ones_like'] = lambda a, dtype=None: npops.ones(arrays.as_arr(a).shape, dtype or arrays.as_arr(a).dtype)
    d['full_like'] = lambda a, v, dtype=None: npops.full(arrays.as_arr(a).shape, v, dtype or arrays.as_arr(a).dtype)
    d['empty_like'] = lambda a, dtype=None: npops.empty(arrays.as_arr(a).shape, dtype)
    d['copy'] = lambda a: arrays.as_arr(a).copy()
    d['abs'] = d['absolute'] = d['fabs'] = ew(abs)
    d['sqrt'] = ew(core.usqrt)
    d['exp'] = ew(core.uexp)
    d['log'] = ew(core.ulog)
    d['log10'] = ew(core.ulog10)
    d['log2'] = ew(log2)
    d['square'] = ew(lambda x: x * x)
    d['negative'] = ew(lambda x: -x)
    for nm in ('sin', 'cos', 'tan', 'arctan2', 'arctan', 'sinh', 'cosh', 'arccos', 'arcsin'):
        if nm == 'arctan2':
            d[nm] = ew2(lambda a, b: core.uf('arctan2', rterm(a), rterm(b)), 'f')
        else:
            d[nm] = ew((lambda nm: lambda x: core.uf(nm, rterm(x)))(nm))
    d['rad2deg'] = d['degrees'] = ew(lambda x: core.div_total(x * 180, np.pi))
    d['deg2rad'] = d['radians'] = ew(lambda x: core.div_total(x * np.pi, 180))
    d['floor'] = ew(npops.floor)

    def rounded(a, decimals=0):
        from .instrument import pv_round
        return arrays.elementwise(lambda x: core.wrap(core.rterm(pv_round(x, decimals))), [arrays.as_arr(a)], 'f') \
            if not core.is_sym(a) and not isinstance(a, (int, float)) else pv_round(a, decimals)
    d['round'] = d['around'] = d['round_'] = rounded
    d['rint'] = lambda a: rounded(a)
    d['ceil'] = ew(npops.ceil)
    d['add'] = ew2(lambda a, b: a + b)
    d['subtract'] = ew2(lambda a, b: a - b)
    d['multiply'] = ew2(lambda a, b: a * b)
    d['divide'] = d['true_divide'] = ew2(core.div_total, 'f')
    d['power'] = ew2(core.power)
    d['maximum'] = ew2(lambda a, b: core.ite(wrap(rterm(a) >= rterm(b)), a, b))
    d['minimum'] = ew2(lambda a, b: core.ite(wrap(rterm(a) <= rterm(b)), a, b))
    d['logical_and'] = ew2(lambda a, b: core.b_and(a, b), 'b')
    d['logical_or'] = ew2(lambda a, b: core.b_or(a, b), 'b')
    d['logical_not'] = lambda a: arrays.elementwise(core.b_not, [a], 'b')
    d['isnan'] = lambda a: arrays.elementwise(lambda x: False, [a], 'b')
    d['isfinite'] = lambda a: arrays.elementwise(lambda x: True, [a], 'b')
    d['isinf'] = d['isnan']
    d['size'] = lambda a: arrays.as_arr(a).size
    d['shape'] = lambda a: arrays.as_arr(a).shape
    d['ndim'] = lambda a: arrays.as_arr(a).ndim
    d['isscalar'] = lambda a: not isinstance(a, (SArr, list, tuple))
    d['trace'] = lambda a: npops.sum_(a.diagonal())
    for nm, kd, cv in (('int16', 'i', npint), ('int32', 'i', npint), ('int64', 'i', npint), ('integer', 'i', npint),
                       ('float64', 'f', npfloat), ('float32', 'f', npfloat), ('floating', 'f', npfloat),
                       ('bool_', 'b', bool), ('float_', 'f', npfloat), ('int_', 'i', npint)):
        d[nm] = _Kind(nm, kd, cv)
    d['number'] = (d['integer'], d['floating'])

    class _RC:
        def __init__(self, f):
            self.f = f

        def __getitem__(self, k):
            k = k if isinstance(k, tuple) else (k,)
            return self.f(k)
    def part(k):
        if isinstance(k, slice):
            if isinstance(k.step, complex):
                return npops.linspace(k.start, k.stop, int(abs(k.step)))
            return npops.arange(k.start or 0, k.stop, k.step or 1)
        a = arrays.as_arr(k)
        return a if a.ndim else a.reshape((1,))
    d['r_'] = _RC(lambda k: npops.concatenate([part(x) for x in k]))
    from . import setops
    for n in ('unique', 'intersect1d', 'union1d', 'setdiff1d'):
        d[n] = getattr(setops, n)
    from . import matrices
    la = _mk('numpy.linalg')
    la.inv = npops.inv
    la.det = matrices.det
    np.linalg = la
    t['numpy'] = np
    t['numpy.linalg'] = la

    sp = _mk('scipy')
    it = _mk('scipy.integrate')
    it.newton_cotes = newton_cotes
    spc = _mk('scipy.special')
    spc.comb = comb
    spc.erfinv = ew(lambda x: core.uf('erfinv', rterm(x)))      # uninterpreted
    ip = _mk('scipy.interpolate')
    cst = _mk('scipy.constants')
    cst.c = cst.speed_of_light = Fraction(299792458)
    cst.pi = np.pi
    sp.integrate, sp.special, sp.interpolate, sp.constants = it, spc, ip, cst
    t['scipy.constants'] = cst
    t['scipy'] = sp
    t['scipy.integrate'] = it
    t['scipy.special'] = spc
    t['scipy.interpolate'] = ip

    m = _mk('math')
    m.sqrt = lambda x: core.usqrt(x)
    m.log10 = core.ulog10
    m.exp = core.uexp
    m.log = core.ulog
    m.floor = npops.floor
    m.ceil = npops.ceil
    m.comb = math.comb
    m.pi = np.pi
    m.atan2 = d['arctan2']
    m.degrees, m.radians = d['degrees'], d['radians']
    m.isclose = lambda a, b, rel_tol=Fraction(1, 10**9), abs_tol=0: wrap(
        rterm(abs(a - b)) <= rterm(abs_tol) + rterm(rel_tol) * rterm(abs(b)))
    m.prod = lambda xs: _prod(xs)
    t['math'] = m

    nb = _mk('numba')

    def jit(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f
    nb.njit = nb.jit = nb.vectorize = nb.guvectorize = jit
    nb.prange = None
    t['numba'] = nb
    ne = _mk('numba.core.errors')
    ne.TypingError = type('TypingError', (Exception,), {})
    t['numba.core'] = _mk('numba.core')
    t['numba.core'].errors = ne
    t['numba.core.errors'] = ne
    import itertools
    from . import seqs
    it = _mk('itertools')
    it.__dict__.update({k: v for k, v in vars(itertools).items() if not k.startswith('_')})
    it.product, it.combinations, it.combinations_with_replacement = seqs.product, seqs.combinations, seqs.combinations_with_replacement
    t['itertools'] = it
    from . import frames, functionals
    functionals.install(t)
    t.update(frames.table())
    from . import h5shim
    t.update(h5shim.table())
    return t


def _prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r
