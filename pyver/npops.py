"""numpy operations on SArr (trusted model of the dependency; cross-checked by selfcheck.py)"""
import itertools
from fractions import Fraction
import z3
from . import core, sums
from .core import S, SNum, SBool, is_sym, term, rterm, bterm, wrap, ite, Unsupported, known, fork, b_and, b_or, _num
from .arrays import (SArr, as_arr, elementwise, broadcast_shapes, bget, norm_index, norm_slice, transpose, same, dim_eq,
                     kind_of_dtype, trunc, scalar_kind, Buf, from_list)
from .filters import flat_space


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(_dim(x) for x in s)
    if isinstance(s, SArr):
        return tuple(_dim(x) for x in s)
    return (_dim(s),)


def _dim(x):
    if isinstance(x, SNum):
        if not x.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        if not known(x.t >= 0):
            if fork(x.t < 0):
                raise ValueError("negative dimensions are not allowed")
        return x
    if isinstance(x, (Fraction, float)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    x = int(x)
    if x < 0:
        raise ValueError("negative dimensions are not allowed")
    return x


def full(shape, v, dtype=None):
    k = kind_of_dtype(dtype) if dtype is not None else scalar_kind(v)
    return SArr(_shape(shape), lambda idx: v, k)


def zeros(shape, dtype=None, order='C'):
    k = kind_of_dtype(dtype)
    z = {'f': Fraction(0), 'i': 0, 'b': False, 'O': 0, 'U': ''}[k]
    return SArr(_shape(shape), lambda idx: z, k)


def ones(shape, dtype=None, order='C'):
    k = kind_of_dtype(dtype)
    z = {'f': Fraction(1), 'i': 1, 'b': True, 'O': 1}[k]
    return SArr(_shape(shape), lambda idx: z, k)


def empty(shape, dtype=None, order='C'):
    u = core.fresh_name('empty')
    sh = _shape(shape)
    f = z3.Function(u, *([core.I] * len(sh) + [core.R]))
    return SArr(sh, lambda idx: wrap(f(*[term(i) for i in idx])), kind_of_dtype(dtype))


def eye(n, m=None, k=0, dtype=None):
    if k != 0:
        raise Unsupported("eye k")
    n = _dim(n)
    m = n if m is None else _dim(m)
    return SArr((n, m), lambda idx: ite(wrap(term(idx[0]) == term(idx[1])), Fraction(1), Fraction(0)), 'f')


def arange(*args, step=None, dtype=None):
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], 1
    else:
        lo, hi, st = args
    if step is not None:
        st = step
    isint = all((is_sym(x) and x.is_int) or isinstance(x, int) for x in (lo, hi, st))
    if is_sym(st) or not st > 0:
        raise Unsupported("arange step")
    n = ceil((core.to_frac(hi) - core.to_frac(lo)) / core.to_frac(st) if not (is_sym(lo) or is_sym(hi)) else
             wrap((rterm(hi) - rterm(lo)) / rterm(st)))
    if is_sym(n):
        if not known(n.t >= 0):
            n = ite(wrap(n.t >= 0), n, 0)
    else:
        n = max(int(n), 0)
    kind = 'i' if isint else 'f'
    if dtype is not None:
        kind = kind_of_dtype(dtype)
    a = SArr((n,), lambda idx: (idx[0] * st + lo) if kind == 'i' else wrap(rterm(idx[0]) * rterm(st) + rterm(lo)), kind,
             props={'increasing': True})
    return a


def ceil(x):
    if not is_sym(x):
        f = core.to_frac(x)
        return -((-f.numerator) // f.denominator)
    if x.is_int:
        return x
    t = z3.simplify(x.t)
    # integer-valued real
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return wrap(t.arg(0))
    r = wrap(-z3.ToInt(-x.t))
    return r


def floor(x):
    if not is_sym(x):
        f = core.to_frac(x)
        return f.numerator // f.denominator
    if x.is_int:
        return x
    return wrap(z3.ToInt(x.t))


def linspace(a, b, num=50, endpoint=True, **kw):
    n = num
    if isinstance(n, (Fraction, float)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    d = (n - 1) if endpoint else n
    da = wrap(rterm(b) - rterm(a))

    def el(idx):
        if not is_sym(d) and d == 0:
            return wrap(rterm(a))
        i = idx[0]
        if endpoint and ((not is_sym(i) and not is_sym(d) and i == d) or (is_sym(i) and is_sym(d) and known(i.t == d.t, 500))):
            return wrap(rterm(b))
        return wrap(rterm(a) + rterm(da) * rterm(i) / rterm(d))
    return SArr((_dim(n),), el, 'f')


def logspace(a, b, num=50, endpoint=True, base=10, **kw):
    if base != 10:
        raise Unsupported("logspace base")
    return elementwise(core.uexp10, [linspace(a, b, num, endpoint)], 'f')


def geomspace(a, b, num=50, endpoint=True):
    la, lb = core.ulog10(a), core.ulog10(b)
    return elementwise(core.uexp10, [linspace(la, lb, num, endpoint)], 'f')


def indices(shape, **kw):
    sh = _shape(shape)
    out = []
    for d in range(len(sh)):
        a = SArr(sh, (lambda d: lambda idx: idx[d])(d), 'i')
        a.props['gridcoord'] = d
        out.append(a)
    return GridStack(out, sh)


class GridStack:
    """result of np.indices: iterable / indexable on the first axis"""

    def __init__(self, arrs, sh):
        self.arrs = arrs
        self.shape = (len(arrs),) + tuple(sh)

    def __iter__(self):
        return iter(self.arrs)

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return self.arrs[k[0]][k[1:]]
        return self.arrs[k]

    def __len__(self):
        return len(self.arrs)

    def __array__pv__(self):
        return stack(self.arrs)

    def reshape(self, *a, **k):
        return self.__array__pv__().reshape(*a, **k)


def ravel(a, order='C'):
    a = as_arr(a)
    if order in ('A', 'K'):
        order = 'C'
    if a.ndim == 0:
        return a.reshape((1,))
    if a.ndim == 1:
        return a.copy() if order == 'F' else a[:]
    sp = flat_space(a.shape, order)
    g = a.getter()
    r = SArr((sp.size,), lambda idx: g(sp.unflat(idx[0])), a.dtype.kind)
    r.props['flat_of'] = sp
    if 'gridcoord' in a.props:
        r.props['flatcoord'] = (sp, a.props['gridcoord'])
    return r


def reshape(a, shape, order='C'):
    a = as_arr(a)
    shape = list(shape)
    if -1 in [s for s in shape if not is_sym(s)]:
        p = [i for i, s in enumerate(shape) if not is_sym(s) and s == -1][0]
        rest = 1
        for i, s in enumerate(shape):
            if i != p:
                rest = rest * s
        shape[p] = core.floordiv(a.size, rest)
    shape = tuple(shape)
    if a.ndim == 0:
        v = a.at()
        return SArr(shape, lambda idx: v, a.dtype.kind)
    # dims that just add/remove ones
    na = [(k, s) for k, s in enumerate(a.shape) if not (not is_sym(s) and s == 1)]
    nb = [(k, s) for k, s in enumerate(shape) if not (not is_sym(s) and s == 1)]
    if len(na) == len(nb) and all(same(x[1], y[1]) for x, y in zip(na, nb)):
        g = a.getter()

        def get(idx):
            out = [0] * a.ndim
            for (ka, _), (kb, _) in zip(na, nb):
                out[ka] = idx[kb]
            return g(tuple(out))
        return SArr(shape, get, a.dtype.kind)
    tot = 1
    for s in shape:
        tot = s * tot
    if not same(tot, a.size):
        if not dim_eq(tot, a.size):
            raise ValueError("cannot reshape array")
    g0 = a.getter()
    base = a.props.get('reshape_of') or (a.shape, g0)
    # equal leading / trailing axes are left alone
    p = 0
    while order == 'C' and p < min(a.ndim, len(shape)) - 1 and same(a.shape[p], shape[p]):
        p += 1
    t = 0
    while order == 'C' and p + t < min(a.ndim, len(shape)) - 1 and same(a.shape[a.ndim - 1 - t], shape[len(shape) - 1 - t]):
        t += 1
    mid_a, mid_b = a.shape[p:a.ndim - t], tuple(shape[p:len(shape) - t])
    spa = flat_space(mid_a, order) if len(mid_a) > 1 else None
    spb = flat_space(mid_b, order) if len(mid_b) > 1 else None

    def get(idx):
        m = idx[p:len(shape) - t]
        f = spb.flat(*m) if spb is not None else m[0]
        m = tuple(spa.unflat(f)) if spa is not None else (f,)
        return g0(tuple(idx[:p]) + m + tuple(idx[len(shape) - t:]))
    r = SArr(shape, get, a.dtype.kind)
    r.props['reshape_of'] = base
    return r


def unreshaped(a):
    """for reductions over all elements: the array before it was reshaped"""
    b = a.props.get('reshape_of')
    return SArr(b[0], b[1], a.dtype.kind) if b is not None else a


def squeeze(a, axis=None):
    a = as_arr(a)
    drop = []
    for k, s in enumerate(a.shape):
        if axis is not None:
            ax = axis + a.ndim if axis < 0 else axis
            if k == ax:
                if not dim_eq(s, 1):
                    raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
                drop.append(k)
        elif not is_sym(s):
            if s == 1:
                drop.append(k)
        elif fork(s.t == 1):
            drop.append(k)
    key = tuple(0 if k in drop else slice(None) for k in range(a.ndim))
    return a[key] if drop else a


def expand_dims(a, axis):
    a = as_arr(a)
    axes = (axis,) if not isinstance(axis, (tuple, list)) else tuple(axis)
    nd = a.ndim + len(axes)
    axes = {x + nd if x < 0 else x for x in axes}
    if len(axes) != nd - a.ndim or any(x >= nd for x in axes):
        raise ValueError("axis out of bounds or repeated")
    key = []
    for k in range(nd):
        key.append(None if k in axes else slice(None))
    return a[tuple(key)]


def _axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(x + a.ndim if x < 0 else x for x in axis)
    return (axis + a.ndim if axis < 0 else axis,)


def sum_(a, axis=None, keepdims=False, dtype=None, **kw):
    if kw:
        raise Unsupported(f"sum {kw}")
    a = as_arr(a)
    if a.ndim == 0:
        return a.at()
    if axis is None and a.ndim == 0:
        return a
    axs = _axes(a, axis)
    if any(x >= a.ndim or x < 0 for x in axs):
        raise ValueError("axis out of bounds")
    g = a.getter()
    isint = a.dtype.kind in 'ib'

    def el(idx):
        def rec(ax_left, cur):
            if not ax_left:
                v = g(tuple(cur))
                return wrap(term(v)) if isinstance(v, (SBool, bool)) else v
            x = ax_left[0]

            def f(k):
                c = list(cur)
                c[x] = k
                return rec(ax_left[1:], c)
            n = a.shape[x]
            return sums.make_sum(0, n, f)
        cur = [None] * a.ndim
        j = 0
        for k in range(a.ndim):
            if k in axs:
                if keepdims:
                    j += 1
                continue
            cur[k] = idx[j]
            j += 1
        r = rec(list(axs), cur)
        return r
    out = []
    for k in range(a.ndim):
        if k in axs:
            if keepdims:
                out.append(1)
        else:
            out.append(a.shape[k])
    if not out:
        r = el(())
        if isint and is_sym(r) and not r.is_int:
            t = z3.simplify(r.t)
            return wrap(z3.ToInt(t))
        if isint and isinstance(r, Fraction) and r.denominator == 1:
            return int(r)
        return r
    return SArr(out, el, 'f')


def mean(a, axis=None):
    a = as_arr(a)
    n = 1
    for x in _axes(a, axis):
        n = a.shape[x] * n
    return sum_(a, axis) / n


def _along(a, axis, f):
    """reduction of booleans along one axis of literal length"""
    ax = _axes(a, axis)[0]
    n = a.shape[ax]
    if is_sym(n):
        raise Unsupported("all/any along a symbolic axis")
    g = a.getter()
    out = [s for k, s in enumerate(a.shape) if k != ax]
    return SArr(out, lambda i: f(*[wrap(bterm(g(tuple(i[:ax]) + (k,) + tuple(i[ax:])))) for k in range(n)]), 'b')


def count_nonzero(a, axis=None, **kw):
    a = as_arr(a)
    if axis is not None:
        raise Unsupported("count_nonzero axis")
    a = unreshaped(a)
    isz = (lambda v: core.b_not(wrap(bterm(v)))) if a.dtype.kind == 'b' else (lambda v: v == 0)
    g = a.getter()
    p = forall_idx(a.shape, lambda i: isz(g(i)))
    r = ravel(a)
    h = r.getter()
    c = sums.make_sum(0, r.shape[0], lambda k: ite(isz(h((k,))), 0, 1))
    if is_sym(c):
        S.facts.append(z3.And(c.t >= 0, (c.t == 0) == bterm(p)))
    return c


def all_(a, axis=None):
    a = as_arr(a)
    if axis is not None and a.ndim > 1:
        return _along(a, axis, core.b_and)
    a = unreshaped(a)
    g = a.getter()
    return forall_idx(a.shape, g)


def forall_idx(shape, g):
    """decide (fork on) 'for all idx: g(idx)'"""
    if all(not is_sym(s) for s in shape):
        tot = 1
        for s in shape:
            tot *= s
        if tot <= 64:
            return b_and(*[wrap(bterm(g(i))) for i in itertools.product(*[range(s) for s in shape])])
    ks, conds = [], []
    for s in shape:
        if not is_sym(s) and s <= 1:
            ks.append(0)
            continue
        sp = next((x for x in S.spaces if x.symbolic and x.nd > 1 and z3.simplify(term(x.size) - s.t, som=True).eq(z3.IntVal(0))), None) if is_sym(s) else None
        if sp is None:
            ks.append(core.bvar('?q'))
            conds.append(b_and(ks[-1] >= 0, ks[-1] < s))
        else:       # a position of a flattened grid: quantify over the grid instead (the enumeration is a bijection)
            qs = [core.bvar('?q') for _ in sp.shape]
            conds.extend(b_and(q >= 0, q < n) for q, n in zip(qs, sp.shape))
            ks.append(sp.flat(*qs))
    with core.Scope(*conds):
        body = bterm(core.merged(lambda: g(tuple(ks)), 'all()'))
        body = core.settle(body)
        if z3.is_true(body) or known(body, 4000):
            return True
    # opaque boolean: Skolemised both ways
    vars_ = sums.params_of([k.t for k in ks if is_sym(k)])
    ps = free_params([body], vars_)
    p = skolem('forall', ps, z3.BoolSort())
    w = [skolem('wit', ps, core.I) for _ in vars_]
    sub = list(zip(vars_, w))
    rng = z3.And(*[bterm(c) for c in conds])
    S.facts.append(z3.Implies(z3.Not(p), z3.And(z3.substitute(rng, *sub), z3.Not(z3.substitute(body, *sub)))))
    S.foralls.append((p, vars_, rng, body))
    return SBool(p)


def free_params(ts, bound=()):
    """the generic variables ts speaks of: an object defined from ts is a function of them"""
    return [x for x in sums.params_of(ts) if not any(x.eq(b) for b in bound)]


def skolem(name, ps, sort):
    nm = core.fresh_name(name)
    return z3.Function(nm, *([x.sort() for x in ps] + [sort]))(*ps) if ps else z3.Const(nm, sort)


def any_(a, axis=None):
    a = as_arr(a)
    if axis is not None and a.ndim > 1:
        return _along(a, axis, core.b_or)
    a = unreshaped(a)
    g = a.getter()
    r = forall_idx(a.shape, lambda i: core.b_not(g(i)))
    return core.b_not(r)


def _extreme(a, axis, ismax, position=False):
    a = as_arr(a)
    if axis is None:
        a = unreshaped(a)
    if axis is None and a.ndim != 1 or axis is not None and a.ndim != 1:
        if axis is None and a.ndim > 1 and any(is_sym(s) for s in a.shape):
            return _extreme_nd(a, ismax)
        if axis is None:
            a = ravel(a)
        else:
            ax = _axes(a, axis)[0]
            g = a.getter()
            out = [s for k, s in enumerate(a.shape) if k != ax]
            if is_sym(a.shape[ax]):
                raise Unsupported("extreme over a symbolic axis of an n-d array")
            n = a.shape[ax]

            def el(idx):
                vs = []
                for k in range(n):
                    i = list(idx)
                    i.insert(ax, k)
                    vs.append(g(tuple(i)))
                return extreme_list(vs, ismax)
            return SArr(out, el, a.dtype.kind)
    n = a.shape[0]
    g = a.getter()
    if not is_sym(n):
        if n == 0:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return extreme_list([g((k,)) for k in range(n)], ismax)
    if not known(n.t > 0) and fork(n.t <= 0):
        raise ValueError("zero-size array to reduction operation which has no identity")
    if a.props.get('increasing') and not position:
        return g((n - 1,)) if ismax else g((0,))
    # m = a[w], and m >= a[k] for all k
    w0 = core.bvar('?w')
    ps = free_params([rterm(core.merged(lambda: g((w0,))))], [w0.t])
    w = skolem('w', ps, core.I)
    S.facts.append(z3.Implies(term(n) > 0, z3.And(w >= 0, w < term(n))))
    m = g((SNum(w),))
    if position:
        m = SNum(w)
        k = core.bvar('?q')
        with core.Scope(k >= 0, k < n):
            b, v = rterm(core.merged(lambda: g((k,)))), rterm(g((SNum(w),)))
        better, worse = (v >= b, v > b) if ismax else (v <= b, v < b)
        S.foralls.append((z3.BoolVal(True), [k.t], z3.And(k.t >= 0, k.t < term(n)), z3.And(better, z3.Implies(k.t < w, worse))))
        return m
    k = core.bvar('?q')
    with core.Scope(k >= 0, k < n):
        b = core.merged(lambda: g((k,)))
    body = (rterm(m) >= rterm(b)) if ismax else (rterm(m) <= rterm(b))
    S.foralls.append((z3.BoolVal(True), [k.t], z3.And(k.t >= 0, k.t < term(n)), body))
    return m


def _extreme_nd(a, ismax):
    for s in a.shape:
        if is_sym(s) and not known(s.t > 0) and fork(s.t <= 0):
            raise ValueError("zero-size array to reduction operation which has no identity")
    g = a.getter()
    w0 = [core.bvar('?w') for _ in a.shape]
    with core.Scope(*[b_and(w >= 0, w < s) for w, s in zip(w0, a.shape)]):
        ps = free_params([rterm(core.merged(lambda: g(tuple(w0))))], [w.t for w in w0])
    ws = [SNum(skolem('w', ps, core.I)) for _ in a.shape]
    S.facts.append(z3.Implies(z3.And(*[term(s) > 0 for s in a.shape if is_sym(s)]),
                              z3.And(*[z3.And(w.t >= 0, w.t < term(s)) for w, s in zip(ws, a.shape)])))
    m = g(tuple(ws))
    ks = [core.bvar('?q') if is_sym(s) else None for s in a.shape]
    lits = [range(s) if not is_sym(s) else [None] for s in a.shape]
    vars_ = [k for k in ks if k is not None]
    rng = z3.And(*[z3.And(k.t >= 0, k.t < term(s)) for k, s in zip(ks, a.shape) if k is not None])
    for lit in itertools.product(*lits):
        idx = tuple(k if l is None else l for k, l in zip(ks, lit))
        with core.Scope(*[b_and(k >= 0, k < s) for k, s in zip(ks, a.shape) if k is not None]):
            b = core.merged(lambda: g(idx))
        S.foralls.append((z3.BoolVal(True), [k.t for k in vars_], rng, (rterm(m) >= rterm(b)) if ismax else (rterm(m) <= rterm(b))))
    return m


def extreme_list(vs, ismax):
    m = vs[0]
    for v in vs[1:]:
        c = (v > m) if ismax else (v < m)
        m = ite(c if isinstance(c, (bool, SBool)) else bool(c), v, m)
    return m


def amax(a, axis=None, **kw):
    return _extreme(a, axis, True)


def amin(a, axis=None, **kw):
    return _extreme(a, axis, False)


def _position(ismax):
    def f(a, axis=None, **kw):
        """first position of the extreme of a 1-d array"""
        a = as_arr(a)
        if a.ndim != 1 or kw or axis not in (None, 0, -1):
            raise Unsupported("argmin / argmax of this shape")
        n = a.shape[0]
        if not is_sym(n):
            if n == 0:
                raise ValueError("attempt to get argmin of an empty sequence")
            g = a.getter()
            i, m = 0, g((0,))
            for k in range(1, n):
                v = g((k,))
                c = (v > m) if ismax else (v < m)
                i, m = ite(c, k, i), ite(c, v, m)
            return i
        return _extreme(a, None, ismax, True)
    return f


argmin, argmax = _position(False), _position(True)


def polyfit(x, y, deg, **kw):
    """degree 1 only: the least-squares line in closed form (slope, intercept), column by column"""
    x, y = as_arr(x), as_arr(y)
    if deg != 1 or kw:
        raise Unsupported("polyfit of this degree")
    if x.ndim != 1:
        raise TypeError("expected 1D vector for x")
    n = x.shape[0]
    if is_sym(n):
        raise Unsupported("polyfit of a symbolic number of points")
    if y.ndim not in (1, 2):
        raise TypeError("expected 1D or 2D array for y")
    if not dim_eq(y.shape[0], n):
        raise TypeError("expected x and y to have same length")
    gx, gy = x.getter(), y.getter()
    xs = [gx((k,)) for k in range(n)]

    def col(rest, which):
        ys = [gy((k,) + rest) for k in range(n)]
        sl, ic = line_fit(xs, ys)
        return sl if which == 0 else ic
    if y.ndim == 1:
        return from_list([col((), 0), col((), 1)])
    g0 = {}

    def el(i):
        w = i[0]
        if is_sym(w):
            return ite(w == 0, col((i[1],), 0), col((i[1],), 1))
        return col((i[1],), w)
    return SArr((2, y.shape[1]), el, 'f')


def line_fit(xs, ys):
    """least-squares line through n points: functions of the points; exact when the points are on a line (trusted)"""
    n = len(xs)
    ts = [rterm(v) for v in list(xs) + list(ys)]
    if n < 2:
        raise Unsupported("line through fewer than two points")
    sl, ic = [z3.Function(f'lsq_{w}_{n}', *([core.R] * (2 * n + 1)))(*ts) for w in ('slope', 'intercept')]
    return wrap(sl), wrap(ic)


def line_facts(ts, light=False):
    """(hook, when the contract asks for it) the fit of points on a line is that line"""
    out = []
    for nm, es in ts.index.items():
        if not nm.startswith('lsq_'):
            continue
        n = int(nm.rsplit('_', 1)[1])
        for e in es:
            sl, ic = [z3.Function(f'lsq_{w}_{n}', *([core.R] * (2 * n + 1)))(*e.children()) for w in ('slope', 'intercept')]
            X, Y = e.children()[:n], e.children()[n:]
            dx, dy = X[1] - X[0], Y[1] - Y[0]
            online = z3.And(dx != 0, *[dy * (X[k] - X[0]) == (Y[k] - Y[0]) * dx for k in range(2, n)])
            out.append(z3.Implies(online, z3.And(sl * dx == dy, ic == Y[0] - sl * X[0])))
    return out


def order_of(vals):
    """stable sorting permutation of a list of numbers; undecided comparisons fork"""
    out = []
    for k, v in enumerate(vals):
        q = len(out)
        while q > 0:
            u = vals[out[q - 1]]
            c = u <= v
            if not (c if isinstance(c, bool) else bool(c)):
                q -= 1
            else:
                break
        out.insert(q, k)
    return out


def sort(a, axis=-1, **kw):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("sort of an n-d array")
    if is_sym(a.shape[0]):
        if a.props.get('increasing'):
            return a.copy()
        raise Unsupported("sort of a symbolic-length array")
    v = [a.at(k) for k in range(a.shape[0])]
    return SArr((len(v),), from_list([v[k] for k in order_of(v)]).getter(), a.dtype.kind)


def argsort(a, axis=-1, **kw):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("argsort of an n-d array")
    if is_sym(a.shape[0]):
        if a.props.get('increasing'):
            return arange(a.shape[0])
        raise Unsupported("argsort of a symbolic-length array")
    return from_list(order_of([a.at(k) for k in range(a.shape[0])]))


def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    g, h = a.getter(), b.getter()
    n = a.shape[-1]
    m = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not same(n, m) and not dim_eq(n, m):
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension")
    if a.ndim == 1 and b.ndim == 1:
        return sums.make_sum(0, n, lambda k: g((k,)) * h((k,)))
    if a.ndim == 1 and b.ndim == 2:
        return SArr((b.shape[1],), lambda i: sums.make_sum(0, n, lambda k: g((k,)) * h((k, i[0]))))
    if b.ndim == 1:
        return SArr(a.shape[:-1], lambda i: sums.make_sum(0, n, lambda k: g(tuple(i) + (k,)) * h((k,))))
    if a.ndim == 1:
        return SArr(b.shape[:-2] + (b.shape[-1],),
                    lambda i: sums.make_sum(0, n, lambda k: g((k,)) * h(tuple(i[:-1]) + (k, i[-1]))))
    batch = broadcast_shapes([a.shape[:-2], b.shape[:-2]]) if a.ndim > 2 or b.ndim > 2 else ()
    nb = len(batch)

    def bidx(arr, i):
        off = nb - (arr.ndim - 2)
        return tuple(0 if (not is_sym(arr.shape[k]) and arr.shape[k] == 1) else i[off + k] for k in range(arr.ndim - 2))
    return SArr(batch + (a.shape[-2], b.shape[-1]),
                lambda i: sums.make_sum(0, n, lambda k: g(bidx(a, i) + (i[-2], k)) * h(bidx(b, i) + (k, i[-1]))))


def dot(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim <= 2 and a.ndim <= 2:
        return matmul(a, b)
    raise Unsupported("dot n-d")


def outer(a, b):
    a, b = ravel(as_arr(a)), ravel(as_arr(b))
    g, h = a.getter(), b.getter()
    return SArr((a.shape[0], b.shape[0]), lambda i: g((i[0],)) * h((i[1],)))


def einsum(spec, *ops, **kw):
    kw.pop('optimize', None)
    if kw:
        raise Unsupported("einsum options")
    ops = [as_arr(o) for o in ops]
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = ''.join(ins.split(','))
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    if '.' in spec:
        raise Unsupported("einsum ellipsis")
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match operand dimensions")
        for c, n in zip(s, o.shape):
            if c in dims:
                if not same(dims[c], n) and not dim_eq(dims[c], n):
                    raise ValueError("operands could not be broadcast together")
            else:
                dims[c] = n
    gs = [o.getter() for o in ops]
    summed = [c for c in sorted(dims) if c not in out]

    def el(idx):
        env = dict(zip(out, idx))

        def rec(left, env):
            if not left:
                r = None
                for s, g in zip(ins, gs):
                    v = g(tuple(env[c] for c in s))
                    r = v if r is None else r * v
                return r
            c = left[0]
            return sums.make_sum(0, dims[c], lambda k: rec(left[1:], {**env, c: k}))
        return rec(summed, env)
    if not out:
        return el(())
    return SArr(tuple(dims[c] for c in out), el, 'f')


def stack(arrs, axis=0):
    if getattr(arrs, '__pv_seq__', False):
        from .seqs import seq_to_array
        r = seq_to_array(arrs)
        return r if axis == 0 else moveaxis(r, 0, axis)
    arrs = [as_arr(a) for a in arrs]
    if not arrs:
        raise ValueError("need at least one array to stack")
    sh = arrs[0].shape
    for a in arrs[1:]:
        if a.ndim != len(sh) or not all(same(x, y) or dim_eq(x, y) for x, y in zip(a.shape, sh)):
            raise ValueError("all input arrays must have the same shape")
    ax = axis + len(sh) + 1 if axis < 0 else axis
    gs = [a.getter() for a in arrs]
    kinds = {a.dtype.kind for a in arrs}
    kind = 'f' if 'f' in kinds else sorted(kinds)[-1] if len(kinds) == 1 else ('i' if kinds <= {'i', 'b'} else 'O')

    def el(idx):
        i = idx[ax]
        rest = tuple(idx[:ax]) + tuple(idx[ax + 1:])
        if not is_sym(i):
            return gs[int(i)](rest)
        v = gs[-1](rest)
        for j in range(len(gs) - 2, -1, -1):
            v = core.merge2(i.t == j, gs[j](rest), v)
        return v
    return SArr(sh[:ax] + (len(arrs),) + sh[ax:], el, kind)


def moveaxis(a, s, d):
    a = as_arr(a)
    s = s + a.ndim if s < 0 else s
    d = d + a.ndim if d < 0 else d
    order = [k for k in range(a.ndim) if k != s]
    order.insert(d, s)
    return transpose(a, order)


def swapaxes(a, x, y):
    a = as_arr(a)
    order = list(range(a.ndim))
    order[x], order[y] = order[y], order[x]
    return transpose(a, order)


def poly_diff(a, b):
    from . import sums
    if not is_sym(b) and b == 0:
        return a
    try:
        p = sums._padd(sums.poly(term(a)), sums.poly(term(b)), -1)
        if all(m == () or (len(m) == 1 and m[0][1] == 1 and sums._alive[m[0][0]].is_int()) for m in p) and \
                all(c.denominator == 1 for c in p.values()):
            r = z3.IntVal(p.get((), Fraction(0)).numerator)
            for m, c in p.items():
                if m:
                    r = r + z3.IntVal(c.numerator) * sums._alive[m[0][0]]
            return wrap(z3.simplify(r))
    except (sums.Blowup, KeyError):
        pass
    return a - b


def array_split(a, groups, axis=0):
    a = as_arr(a)
    if is_sym(groups) or is_sym(a.shape[0]) or axis != 0:
        raise Unsupported('array_split of unknown size')
    if isinstance(groups, (list, tuple, SArr)):
        raise Unsupported('array_split at given places')
    n, g = int(a.shape[0]), int(groups)
    if g <= 0:
        raise ValueError('number sections must be larger than 0.')
    each, extra = divmod(n, g)
    out, at = [], 0
    for i in range(g):
        size = each + (1 if i < extra else 0)
        out.append(a[at:at + size])
        at += size
    return out


def concatenate(arrs, axis=0):
    if getattr(arrs, '__pv_seq__', False):
        raise Unsupported("concatenate of symbolic sequence")
    arrs = [as_arr(a) for a in arrs]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    ax = axis + nd if axis < 0 else axis
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for k in range(nd):
            if k != ax and not same(a.shape[k], arrs[0].shape[k]) and not dim_eq(a.shape[k], arrs[0].shape[k]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    offs = [0]
    for a in arrs:
        offs.append(offs[-1] + a.shape[ax])
    gs = [a.getter() for a in arrs]

    def el(idx):
        i = idx[ax]

        def part(j):
            k = list(idx)
            k[ax] = i - offs[j]
            return gs[j](tuple(k))
        conds = [wrap(term(i) < term(offs[j + 1])) for j in range(len(gs))]
        if is_sym(i):
            # cheap attempt: the position relative to one part, simplified as a polynomial
            for j in range(len(gs)):
                d = poly_diff(i, offs[j])
                if known(z3.And(term(d) >= 0, term(d) < term(arrs[j].shape[ax])), 600):
                    k = list(idx)
                    k[ax] = d
                    return gs[j](tuple(k))
        for j, c in enumerate(conds):
            if c is True or (c is not False and known(bterm(c), 600)):
                if all(conds[q] is False or known(z3.Not(bterm(conds[q])), 600) for q in range(j)):
                    return part(j)
                break
        v = part(len(gs) - 1)
        for j in range(len(gs) - 2, -1, -1):
            c = conds[j]
            if c is False:
                continue
            v = core.merge2(bterm(c), part(j), v)
        return v
    kinds = {a.dtype.kind for a in arrs}
    kind = 'f' if 'f' in kinds else (sorted(kinds)[0] if len(kinds) == 1 else 'O')
    sh = list(arrs[0].shape)
    sh[ax] = offs[-1]
    return SArr(sh, el, kind)


def hstack(arrs):
    arrs = [as_arr(a) for a in arrs]
    return concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


def vstack(arrs):
    arrs = [as_arr(a) for a in arrs]
    arrs = [a[None, :] if a.ndim == 1 else a for a in arrs]
    return concatenate(arrs, axis=0)


def block(x):
    def depth(y):
        return 1 + depth(y[0]) if isinstance(y, list) else 0
    d = depth(x)
    if d == 0:
        return as_arr(x)

    def rec(y, lev):
        if not isinstance(y, list):
            return as_arr(y)
        return concatenate([rec(z, lev - 1) for z in y], axis=-lev)
    return rec(x, d)


def diff(a, n=1, axis=-1):
    a = as_arr(a)
    if n != 1:
        raise Unsupported("diff n")
    ax = axis + a.ndim if axis < 0 else axis
    k1 = tuple(slice(1, None) if k == ax else slice(None) for k in range(a.ndim))
    k0 = tuple(slice(None, -1) if k == ax else slice(None) for k in range(a.ndim))
    return a[k1] - a[k0]


def take(a, idxs, axis=None):
    a = as_arr(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    ax = axis + a.ndim if axis < 0 else axis
    key = tuple([slice(None)] * ax + [idxs if not isinstance(idxs, list) else as_arr(idxs)])
    return a[key]


def where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    c, x, y = as_arr(c), as_arr(x), as_arr(y)
    ks = {x.dtype.kind, y.dtype.kind}
    return as_arr_or_scalar(elementwise(lambda a, b, d: core.merge2(bterm(a), b, d), [c, x, y],
                                        'f' if 'f' in ks else (sorted(ks)[0] if len(ks) == 1 else 'O')))


def as_arr_or_scalar(x):
    return x


def nonzero(c):
    from .filters import compress_index
    c = as_arr(c)
    if c.dtype.kind != 'b':
        c = (c != 0)
    F = compress_index(c)
    out = []
    for d in range(F.ndim):
        a = SArr((F.count,), (lambda d: lambda idx: F.source(idx[0])[d])(d), 'i')
        a.props['filter_coord'] = (F, d)
        out.append(a)
    return tuple(out)


def diag(a, k=0):
    a = as_arr(a)
    if k != 0:
        raise Unsupported("diag k")
    g = a.getter()
    if a.ndim == 1:
        n = a.shape[0]
        return SArr((n, n), lambda i: ite(wrap(term(i[0]) == term(i[1])), g((i[0],)), Fraction(0)), a.dtype.kind)
    if not same(a.shape[0], a.shape[1]):
        raise Unsupported("diag of non-square")
    return SArr((a.shape[0],), lambda i: g((i[0], i[0])), a.dtype.kind)


def triu(a, k=0):
    a = as_arr(a)
    g = a.getter()
    return SArr(a.shape, lambda i: ite(wrap(term(i[-1]) - term(i[-2]) >= term(k)), g(i), Fraction(0)), a.dtype.kind)


def tril(a, k=0):
    a = as_arr(a)
    g = a.getter()
    return SArr(a.shape, lambda i: ite(wrap(term(i[-1]) - term(i[-2]) <= term(k)), g(i), Fraction(0)), a.dtype.kind)


def triu_indices(n, k=0, m=None):
    return nonzero(tri_mask(n, m, lambda i, j: wrap(term(j) - term(i) >= term(k))))


def tril_indices(n, k=0, m=None):
    return nonzero(tri_mask(n, m, lambda i, j: wrap(term(j) - term(i) <= term(k))))


def tri_mask(n, m, f):
    m = n if m is None else m
    return SArr((n, m), lambda i: f(i[0], i[1]), 'b')


def isin(a, s):
    from .filters import array_member
    a = as_arr(a)
    s = as_arr(s)
    s = s if s.ndim == 1 else ravel(s)
    m = array_member(s)
    r = elementwise(lambda x: m(x), [a], 'b')
    if a.ndim == 1 and a.props.get('increasing') and ('posF' in a.props or 'set' in a.props):
        r.props['isin'] = (a, s)
    return r


def clip(x, lo, hi):
    def f(a, l, h):
        r = a
        if l is not None:
            r = ite(wrap(rterm(r) < rterm(l)), l, r)
        if h is not None:
            r = ite(wrap(rterm(r) > rterm(h)), h, r)
        return r
    return elementwise(f, [x, lo, hi])


def array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not dim_eq(x, y):
            return False
    return all_(a == b) if a.ndim else (a == b)


def isclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 100000000), equal_nan=False):
    return elementwise(lambda x, y: wrap(rterm(abs(x - y)) <= rterm(atol) + rterm(rtol) * rterm(abs(y))), [a, b], 'b')


def allclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 100000000), equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return all_(r) if isinstance(r, SArr) else r


_inv_cache = []


def inv(a):
    """np.linalg.inv: trusted contract.  Represented by an uninterpreted matrix; contract facts are added by lemmas"""
    from .matrices import matrix_inverse
    return matrix_inverse(as_arr(a))


def repeat(a, n, axis=None):
    a = as_arr(a)
    if axis is None or is_sym(n) and False:
        raise Unsupported("repeat without axis")
    ax = axis + a.ndim if axis < 0 else axis
    if not (not is_sym(a.shape[ax]) and a.shape[ax] == 1):
        raise Unsupported("repeat of a long axis")
    g = a.getter()
    shape = a.shape[:ax] + (n,) + a.shape[ax + 1:]
    return SArr(shape, lambda i: g(i[:ax] + (0,) + i[ax + 1:]), a.dtype.kind)


def apply1(f, x):
    if hasattr(x, 'map1'):
        return x.map1(f)
    if isinstance(x, SArr):
        return elementwise(f, [x], 'f')
    if isinstance(x, (list, tuple)):
        return elementwise(f, [as_arr(x)], 'f')
    return f(x)


def piecewise(x, condlist, funclist, *args, **kw):
    """value of the last condition that holds, 0 (or the extra default) where none does"""
    if args or kw:
        raise Unsupported("piecewise arguments")
    if any(callable(f) and not is_sym(f) for f in funclist):
        raise Unsupported("piecewise functions")
    x = as_arr(x)
    conds, vals = [as_arr(c) for c in condlist], list(funclist)
    dflt = 0
    if len(vals) == len(conds) + 1:
        dflt = vals.pop()
    elif len(vals) != len(conds):
        raise ValueError(f"with {len(conds)} condition(s), either {len(conds)} or {len(conds) + 1} functions are expected")
    for c in conds:
        if c.ndim != x.ndim:
            raise Unsupported("piecewise conditions of another shape")
        for a, b in zip(c.shape, x.shape):
            if not core.known(core.term(a) == core.term(b)) and core.fork(core.term(a) != core.term(b)):
                raise IndexError("boolean index did not match indexed array")
    gs = [c.getter() for c in conds]
    vals = [v.item() if isinstance(v, SArr) and v.ndim == 0 else v for v in vals]
    if any(isinstance(v, SArr) for v in vals):
        raise Unsupported("piecewise array values")
    if x.dtype.kind != 'f':
        raise Unsupported("piecewise on integers")

    def at(i):
        v = core.wrap(core.rterm(dflt))
        for g, w in zip(gs, vals):
            v = core.ite(g(i), w, v)
        return v
    return SArr(x.shape, at, 'f')
