"""Trusted contracts of scipy's quadratures and interpolants: each is *a linear functional of the samples whose weights depend
only on the nodes* (for quad: on the interval).  Nothing is assumed about the weights, so an obligation proved here holds for
every quadrature rule / interpolation basis; numerical accuracy is not claimed."""
import z3
from . import core, sums, arrays
from .core import S, wrap, term, rterm, is_sym, Unsupported
from .arrays import SArr, as_arr

R, I = core.R, core.I
_IDS = {}
_ALIVE = []


def array_id(x):
    """(number, free generic variables): equal numbers for arrays with the same elements as terms"""
    x = as_arr(x)
    if x.ndim != 1:
        raise Unsupported("nodes that are not 1-d")
    n = x.shape[0]
    k = core.bvar('?k')
    with core.Scope(k >= 0, k < n):
        e = rterm(core.merged(lambda: x.at(k), 'nodes'))
    e, nt = z3.simplify(e), z3.simplify(term(n))
    ps = [p for p in sums.params_of([e, nt]) if not p.eq(k.t)]
    sub = [(k.t, z3.Int('kk_node'))] + [(p, z3.Const(f'par_node_{i}_{p.sort()}', p.sort())) for i, p in enumerate(ps)]
    e, nt = z3.substitute(e, *sub), z3.substitute(nt, *sub)
    _ALIVE.append((e, nt))
    return _IDS.setdefault((e.get_id(), nt.get_id()), len(_IDS)), ps


def weight(name, ps, *ts):
    args = list(ps) + list(ts)
    return wrap(core.ufd(name, *([a.sort() for a in args] + [R]))(*args))


def quad(func, a, b, args=(), **kw):
    """integral of func(x, *args) over [a, b]: some rule whose nodes lie in the interval"""
    if set(kw) - {'epsabs', 'epsrel', 'limit', 'points', 'full_output'} or kw.get('full_output'):
        raise Unsupported(f"quad {sorted(kw)}")
    if not isinstance(args, tuple):
        args = (args,)
    ta, tb = rterm(a), rterm(b)
    n = wrap(z3.Int('quad_nodes'))
    core.add_fact(term(n) >= 64)

    def f(k):
        x = weight('quad_x', [], ta, tb, term(k))
        with core.Scope(wrap(z3.Implies(ta <= tb, z3.And(ta <= x.t, x.t <= tb)))):
            v = func(x, *args)
        if isinstance(v, SArr):
            v = v.item() if v.ndim == 0 else v
        if isinstance(v, SArr):
            raise Unsupported("array-valued integrand")
        return weight('quad_w', [], ta, tb, term(k)) * v
    return sums.make_sum(0, n, f), core.fresh_real('quad_err')


def _last(a, axis, f):
    """apply f(vector getter) along an axis"""
    ax = axis if axis >= 0 else a.ndim + axis
    if not 0 <= ax < a.ndim:
        raise ValueError("axis out of bounds")
    g = a.getter()
    if a.ndim == 1:
        return f(lambda j: g((j,)))
    sh = a.shape[:ax] + a.shape[ax + 1:]
    return SArr(sh, lambda i: f(lambda j: g(tuple(i[:ax]) + (j,) + tuple(i[ax:]))), 'f')


def rule(name):
    def g(y, x=None, dx=1, axis=-1, **kw):
        if set(kw) - {'even'}:
            raise Unsupported(f"{name} {sorted(kw)}")
        y = as_arr(y)
        ax = axis if axis >= 0 else y.ndim + axis
        n = y.shape[ax]
        if x is not None:
            x = as_arr(x)
            if x.ndim != 1:
                raise Unsupported("nodes that are not 1-d")
            if not core.known(term(x.shape[0]) == term(n)):
                if core.fork(term(x.shape[0]) != term(n)):
                    raise ValueError("If given, length of x along axis must be the same as y.")
            i, ps = array_id(x)
            w = lambda j: weight(f'{name}_{i}', ps, term(j))
        else:
            w = lambda j: weight(f'{name}_uniform', [], term(n), term(j)) * dx
        return _last(y, axis, lambda f: sums.make_sum(0, n, lambda j: w(j) * f(j)))
    return g


def cumulative(y, x=None, dx=1, axis=-1, initial=None):
    raise Unsupported("cumulative integration")


class Spline:
    """InterpolatedUnivariateSpline: linear in the samples"""

    def __init__(self, x, y, w=None, bbox=None, k=3, ext=0, check_finite=False):
        if w is not None or bbox is not None:
            raise Unsupported("spline weights")
        self.x, self.y = as_arr(x), as_arr(y)
        if self.x.ndim != 1 or self.y.ndim != 1:
            raise Unsupported("spline of arrays that are not 1-d")
        if not core.known(term(self.x.shape[0]) == term(self.y.shape[0])):
            if core.fork(term(self.x.shape[0]) != term(self.y.shape[0])):
                raise ValueError("x and y should have a same length")
        self.y = self.y.copy()
        self.k = k
        self.ext = {'extrapolate': 0, 'zeros': 1, 'raise': 2, 'const': 3}.get(ext, ext)
        self.i, self.ps = array_id(self.x)

    def value(self, t, ext):
        n = self.x.shape[0]
        v = sums.make_sum(0, n, lambda j: weight(f'spline{self.k}_{self.i}', self.ps, rterm(t), term(j)) * self.y.at(j))
        if ext == 1:
            inside = wrap(z3.And(rterm(self.x.at(0)) <= rterm(t), rterm(t) <= rterm(self.x.at(n - 1))))
            return core.ite(inside, v, 0)
        if ext == 3:
            raise Unsupported("clamped spline")
        return v

    def __call__(self, t, nu=0, ext=None):
        if nu:
            raise Unsupported("spline derivative")
        e = self.ext if ext is None else {'extrapolate': 0, 'zeros': 1, 'raise': 2, 'const': 3}.get(ext, ext)
        if is_sym(t) or core._num(t):
            return self.value(t, e)
        t = as_arr(t)
        g = t.getter()
        return SArr(t.shape, lambda i: self.value(g(i), e), 'f')


class Grid2:
    """RectBivariateSpline: linear in the samples"""

    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0):
        if bbox is not None or s:
            raise Unsupported("smoothing bivariate spline")
        self.x, self.y, self.z = as_arr(x), as_arr(y), as_arr(z).copy()
        for ax, v in ((0, self.x), (1, self.y)):
            if not core.known(term(v.shape[0]) == term(self.z.shape[ax])):
                if core.fork(term(v.shape[0]) != term(self.z.shape[ax])):
                    raise ValueError("x and y dimensions must match z")
        self.k = (kx, ky)
        self.i, self.p = array_id(self.x)
        self.j, self.q = array_id(self.y)

    def value(self, a, b):
        nm = f'spline2_{self.k[0]}{self.k[1]}_{self.i}_{self.j}'
        m, n = self.z.shape
        return sums.make_sum(0, m, lambda u: sums.make_sum(0, n, lambda v: weight(
            nm, self.p + self.q, rterm(a), rterm(b), term(u), term(v)) * self.z.at(u, v)))

    def __call__(self, a, b, dx=0, dy=0, grid=True):
        if dx or dy:
            raise Unsupported("spline derivative")
        a, b = as_arr(a), as_arr(b)
        if grid:
            ga, gb = a.getter(), b.getter()
            sh = (a.shape or (1,)) + (b.shape or (1,))
            return SArr(sh, lambda i: self.value(ga((i[0],)[:a.ndim]), gb((i[1],)[:b.ndim])), 'f')
        sh = arrays.broadcast_shapes([a.shape, b.shape])
        ga, gb = a.getter(), b.getter()
        r = arrays.elementwise(lambda u, v: self.value(u, v), [a, b], 'f')
        return r if not isinstance(r, SArr) or r.ndim else r.item()

    def ev(self, a, b, dx=0, dy=0):
        return self(a, b, dx, dy, grid=False)


def interp1d(x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
    """piecewise linear interpolation inside the nodes: the interpolating spline of degree one"""
    if kind != 'linear' or fill_value is not None or bounds_error:
        raise Unsupported("interp1d options")
    return Spline(x, y, k=1)


def install(t):
    it, ip = t['scipy.integrate'], t['scipy.interpolate']
    it.quad = quad
    it.simps = it.simpson = rule('simpson')
    it.trapz = it.trapezoid = rule('trapezoid')
    it.romb = rule('romb')
    it.cumtrapz = cumulative
    t['numpy'].trapz = rule('trapezoid')
    ip.InterpolatedUnivariateSpline = Spline
    ip.RectBivariateSpline = Grid2
    ip.interp1d = interp1d
