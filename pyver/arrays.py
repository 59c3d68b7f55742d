"""Symbolic n-d arrays: shape of (int | symbolic int) and an element function.  Trusted model of numpy.ndarray over the
mathematical reals / integers; cross-checked against the installed numpy by selfcheck.py."""
import itertools
from fractions import Fraction
import z3
from . import core
from .core import (S, SNum, SBool, is_sym, term, rterm, bterm, wrap, ite, Unsupported, fork, known, b_and, b_or, b_not,
                   _num)


def same(a, b):
    """provably / concretely equal scalars?"""
    if not is_sym(a) and not is_sym(b):
        return a == b
    return known(term(a) == term(b))


def eq(a, b):
    return wrap(term(a) == term(b))


class Layer:
    """a write (or a family of writes quantified over loop variables) applied on top of a buffer"""
    __slots__ = ('spec', 'val', 'vars', 'conds', 'time', 'group')

    def __init__(self, spec, val, vars=(), conds=(), time=()):
        self.spec = spec      # per dim ('pt', scalar) | ('free', start, n) | ('any',)
        self.val = val        # free index list -> scalar
        self.vars = list(vars)   # [(z3 const, lo, hi)] outermost first
        self.conds = list(conds)
        self.time = list(time)   # textual order inside the iteration, one entry per loop level (+1)
        self.group = None

    def match(self, idx):
        """-> (cond, value thunk, solved loop variables) for target idx"""
        eqs = []
        free = []
        cond = []
        for sp, t in zip(self.spec, idx):
            if sp[0] == 'pt':
                eqs.append((sp[1], t))
            elif sp[0] == 'free':
                lo, n = sp[1], sp[2]
                if not (not is_sym(lo) and lo == 0):
                    cond.append(wrap(term(t) >= term(lo)))
                    cond.append(wrap(term(t) < term(lo) + term(n)))
                    free.append(t - lo)
                else:
                    if sp[3] is not None:
                        cond.append(wrap(term(t) < term(n)))
                    free.append(t)
            else:
                free.append(t)
        if not self.vars:
            for e, t in eqs:
                if not is_sym(e) and not is_sym(t):
                    if e != t:
                        return False, None, ()
                else:
                    cond.append(eq(e, t))
            cond.extend(wrap(c) for c in self.conds)
            return b_and(*cond), (lambda: self.val(free)), ()
        sol = solve_vars(self.vars, eqs)
        sub = list(sol)

        def sb(x):
            x = term(x)
            return z3.substitute(x, *sub)
        for v, lo, hi in self.vars:
            sv = [s for (c, s) in sol if c.eq(v)][0]
            cond.append(wrap(z3.And(sb(lo) <= sv, sv < sb(hi))))
        for e, t in eqs:
            cond.append(wrap(sb(e) == term(t)))
        for c in self.conds:
            cond.append(wrap(z3.substitute(bterm(c), *sub)))

        def value():
            v = self.val(free)
            return subst_scalar(v, sub)
        svals = tuple([s for (c, s) in sol if c.eq(v)][0] for v, lo, hi in self.vars)
        return b_and(*cond), value, svals


def subst_scalar(v, sub):
    if is_sym(v):
        return wrap(z3.substitute(v.t, *sub))
    if isinstance(v, tuple):
        return tuple(subst_scalar(x, sub) for x in v)
    return v


def solve_vars(vars, eqs):
    """solve e(vars) == t for the loop variables; each variable must occur as v, v+c, c-v or ToReal thereof"""
    sol = []
    unsolved = [v for v, lo, hi in vars]
    pending = [(term(e), term(t)) for e, t in eqs]
    from .sums import depends
    progress = True
    while unsolved and progress:
        progress = False
        for e, t in pending:
            es = z3.substitute(e, *sol) if sol else e
            inside = [v for v in unsolved if depends(es, v)]
            if len(inside) != 1:
                continue
            v = inside[0]
            c0 = z3.simplify(z3.substitute(es, (v, z3.IntVal(0))))
            d = z3.simplify(z3.substitute(es, (v, v + 1)) - es, som=True)
            if z3.is_int_value(d) and d.as_long() == 1:
                s = z3.simplify(t - c0)
            elif z3.is_int_value(d) and d.as_long() == -1:
                s = z3.simplify(c0 - t)
            else:
                s = inverse_of(es, v, t)
                if s is None:
                    continue
            sol = [(a, z3.substitute(b, (v, s))) for a, b in sol] + [(v, s)]
            unsolved.remove(v)
            progress = True
            break
    if unsolved:
        raise Unsupported("loop write whose index does not determine the iteration")
    return sol


def inverse_of(e, v, t):
    """use a registered inverse function: e = f(v) with inv(f(v)) = v"""
    for decl, inv in S_inverses():
        if z3.is_app(e) and e.decl().eq(decl) and e.num_args() >= 1 and e.arg(e.num_args() - 1).eq(v):
            return inv(*(e.children()[:-1] + [t]))
    return None


def S_inverses():
    return getattr(S, 'inverses', [])


class Buf:
    _ids = itertools.count()

    def __init__(self, shape, fn):
        self.shape = tuple(shape)
        self.fn = fn
        self.layers = ()
        self.born = S.loop_depth
        self.id = next(Buf._ids)
        self.loop_token = tuple(S.loops)

    def getter(self):
        fn, layers = self.fn, self.layers
        if S.loop_depth and self.loop_token != tuple(S.loops):
            for lp in S.loops:
                if lp not in self.loop_token:
                    lp.note_read(self)

        def get(idx):
            return read_layers(fn, layers, idx)
        return get

    def write(self, layer):
        for lp in S.loops:
            if lp not in self.loop_token:
                lp.note_write(self)
        self.layers = self.layers + (layer,)


def read_layers(fn, layers, idx):
    i = len(layers)
    # walk from the newest
    stack = []
    while i > 0:
        i -= 1
        L = layers[i]
        if L.group is not None:
            # all layers of the group (contiguous) are resolved by time
            g = L.group
            j = i
            while j > 0 and layers[j - 1].group is g:
                j -= 1
            members = layers[j:i + 1]
            i = j
            ms = []
            for M in members:
                c, v, sv = M.match(idx)
                if c is False:
                    continue
                if not (c is True) and known(z3.Not(bterm(c)), 800):
                    continue
                ms.append((M, c, v, sv))
            if not ms:
                continue
            if len(ms) == 1:
                M, c, v, sv = ms[0]
                if c is True or known(bterm(c), 800):
                    return fold(stack, v())
                stack.append((c, v))
                continue
            # several candidates: the latest wins
            ents = []
            for a, (M, c, v, sv) in enumerate(ms):
                win = [c]
                for b, (M2, c2, v2, sv2) in enumerate(ms):
                    if a == b:
                        continue
                    both = z3.And(bterm(c), bterm(c2))
                    if known(z3.Not(both), 800):
                        continue
                    later = time_less(M, sv, M2, sv2)
                    win.append(b_not(b_and(c2, later)))
                ents.append((b_and(*win), v))
            stack.extend(ents)
            continue
        c, v, _ = L.match(idx)
        if c is False:
            continue
        if c is True:
            return fold(stack, v())
        if known(bterm(c), 800):
            return fold(stack, v())
        if known(z3.Not(bterm(c)), 800):
            continue
        stack.append((c, v))
    return fold(stack, fn(idx))


def fold(stack, base):
    for c, v in reversed(stack):
        base = ite(c, v(), base)
    return base


def time_less(M1, s1, M2, s2):
    """does the write (M1 at solved vars s1) happen before (M2 at s2)?  lexicographic on (time[0], var0, time[1], ...)"""
    k1, k2 = [], []
    for M, s, k in ((M1, s1, k1), (M2, s2, k2)):
        for d in range(max(len(M.time), len(s))):
            if d < len(M.time):
                k.append(z3.IntVal(M.time[d]))
            if d < len(s):
                k.append(s[d])
    cond = z3.BoolVal(False)
    for a, b in reversed(list(zip(k1, k2))):
        cond = z3.Or(a < b, z3.And(a == b, cond))
    return wrap(z3.simplify(cond))


# ------------------------------------------------------------------------------------------------------ arrays
class dtype_:
    def __init__(self, kind):
        self.kind = kind
        self.name = {'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object', 'U': 'str'}[kind]
        self.type = None

    def __eq__(self, o):
        if isinstance(o, dtype_):
            return self.kind == o.kind
        return kind_of_dtype(o) == self.kind

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return f"dtype({self.name})"


def kind_of_dtype(d):
    if d is None:
        return 'f'
    if isinstance(d, dtype_):
        return d.kind
    if d is float or d in ('float', 'float64', 'f8', '<f8'):
        return 'f'
    if d is int or d == 'int':
        return 'i'
    if d is bool or d == 'bool':
        return 'b'
    k = getattr(d, '_pv_kind', None)
    if k:
        return k
    if d is object:
        return 'O'
    if d is str:
        return 'U'
    raise Unsupported(f"dtype {d}")


def scalar_kind(x):
    if isinstance(x, (SBool, bool)):
        return 'b'
    if isinstance(x, SNum):
        return 'i' if x.is_int else 'f'
    if isinstance(x, int):
        return 'i'
    if _num(x):
        return 'f'
    if isinstance(x, str):
        return 'U'
    return 'O'


def norm_index(i, n):
    """python/numpy index -> non-negative index, raising IndexError on the feasible out-of-bounds branch"""
    if not is_sym(i) and not is_sym(n):
        i = int(i)
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError(f"index {i} is out of bounds for axis with size {n}")
        return i
    if not is_sym(i):
        i = int(i)
        if i < 0:
            i = n + i
    else:
        if not known(i.t >= 0):
            if fork(i.t < 0):
                i = i + n
    ti, tn = term(i), term(n)
    inb = z3.And(ti >= 0, ti < tn)
    if not known(inb):
        if not fork(inb):
            raise IndexError("index out of bounds (symbolic)")
    return wrap(ti)


class SArr:
    __pv_array__ = True
    __array_priority__ = 2000
    __array_ufunc__ = None
    _pv_kind = None

    def __init__(self, shape, fn, kind='f', buf=None, vmap=None, props=None):
        self.shape = tuple(shape)
        self.dtype = dtype_(kind)
        self._props = dict(props or {})
        if buf is None:
            buf = Buf(self.shape, fn)
            vmap = None
        self.buf = buf
        self._player = buf.layers
        self.vmap = vmap        # view: list of per-buf-dim spec ('pt', e) | ('free', start, step, myaxis)

    # -------------------------------------------------------------------------------- element access
    def getter(self):
        g = self.buf.getter()
        if self.vmap is None:
            return g
        vm = self.vmap

        def get(idx):
            out = []
            for sp in vm:
                if sp[0] == 'pt':
                    out.append(sp[1])
                else:
                    _, st, step, ax = sp
                    x = idx[ax]
                    if step != 1:
                        x = x * step
                    if is_sym(st) or st != 0:
                        x = x + st
                    out.append(x)
            return g(tuple(out))
        return get

    def at(self, *idx):
        """element at in-bounds non-negative indices (no bounds obligation)"""
        return self.getter()(tuple(idx))

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = s * n
        return n

    @property
    def props(self):
        # facts about the contents: void once the storage has been written since they were recorded
        if self.buf.layers is not self._player:
            return {}
        return self._props

    @property
    def T(self):
        return transpose(self)

    @property
    def values(self):
        return self

    def __len__(self):
        n = self.shape[0]
        if is_sym(n):
            raise Unsupported("native len() of symbolic array")
        return n

    def pv_len(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __iter__(self):
        n = self.shape[0]
        if is_sym(n):
            v = core.concretize(n)
            if v is None:
                raise Unsupported("native iteration over symbolic-length array")
            n = v
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        if all(not is_sym(s) and s == 1 for s in self.shape):
            return bool(self.at(*([0] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def copy(self, order=None):
        g = self.getter()
        return SArr(self.shape, g, self.dtype.kind, props=self.props)

    def astype(self, dt, copy=True):
        k = kind_of_dtype(dt)
        g = self.getter()
        if k == self.dtype.kind:
            return SArr(self.shape, g, k, props=self.props)
        if k == 'f':
            return SArr(self.shape, lambda idx: wrap(rterm(g(idx))), 'f')
        if k == 'i':
            if self.dtype.kind == 'b':
                return SArr(self.shape, lambda idx: wrap(term(g(idx))), 'i')
            return SArr(self.shape, lambda idx: trunc(g(idx)), 'i')
        if k == 'b':
            return SArr(self.shape, lambda idx: wrap(bterm(g(idx))), 'b')
        raise Unsupported("astype")

    # -------------------------------------------------------------------------------- indexing
    def _parse(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        # boolean masks consume ndim axes
        n_used = 0
        for k in key:
            if k is None:
                continue
            if k is Ellipsis:
                continue
            if _is_mask(k):
                n_used += k.ndim
            else:
                n_used += 1
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[p:p + 1] = [slice(None)] * (self.ndim - n_used)
        else:
            key += [slice(None)] * (self.ndim - n_used)
        if n_used > self.ndim:
            raise IndexError("too many indices for array")
        return key

    def __getitem__(self, key):
        if isinstance(key, str):
            raise IndexError("only integers, slices... are valid indices")
        key = self._parse(key)
        if any(_is_adv(k) for k in key):
            return self._adv_get(key)
        # basic indexing -> view
        out_shape = []
        specs = []
        ax = 0
        myaxis = 0
        newaxes = []
        for k in key:
            if k is None:
                newaxes.append(myaxis)
                out_shape.append(1)
                myaxis += 1
                continue
            n = self.shape[ax]
            if isinstance(k, slice):
                st, ln, step = norm_slice(k, n)
                specs.append(('free', st, step, myaxis))
                out_shape.append(ln)
                myaxis += 1
            else:
                specs.append(('pt', norm_index(_as_index(k), n)))
            ax += 1
        if not out_shape:
            return self.at(*[s[1] for s in specs])
        # compose with own vmap
        if self.vmap is None:
            vm = specs
        else:
            vm = []
            for sp in self.vmap:
                if sp[0] == 'pt':
                    vm.append(sp)
                else:
                    _, st, step, a = sp
                    q = specs[a]
                    if q[0] == 'pt':
                        vm.append(('pt', q[1] * step + st))
                    else:
                        vm.append(('free', q[1] * step + st, q[2] * step, q[3]))
        props = {}
        if len(key) == 1 and isinstance(key[0], slice) and self.ndim == 1:
            props = {k: v for k, v in self.props.items() if k in ('increasing',)} if specs[0][2] == 1 else {}
        return SArr(out_shape, None, self.dtype.kind, buf=self.buf, vmap=vm, props=props)

    def _adv_get(self, key):
        plan = adv_plan(self, key)
        g = self.getter()
        if len(key) == 1 and self.ndim == 1 and 'flatcoord' in self.props and isinstance(key[0], SArr) \
                and key[0].dtype.kind == 'b':
            # coordinate d of the selected cells of a flat index space
            from .filters import compress_index, SpaceFilter, Filter
            F = compress_index(key[0])
            sp, d = self.props['flatcoord']
            if isinstance(F, Filter):
                plan.props = dict(plan.props)
                for G in S.spacefilters:
                    if G.F is F and G.space is sp:
                        break
                else:
                    G = SpaceFilter(F, sp)
                    S.spacefilters.append(G)
                plan.props['filter_coord'] = (G, d)
        if len(key) == 1 and self.ndim == 1 and self.props.get('increasing') and isinstance(key[0], SArr) \
                and key[0].dtype.kind == 'b':
            # selected entries of an increasing array: increasing; x is one of them iff x is an entry whose index is selected
            plan.props = dict(plan.props, increasing=True)
            pos = self.props['set'].rankF if 'set' in self.props else self.props.get('posF')
            if pos is not None:
                from .filters import compress_index
                F = compress_index(key[0])
                n = self.shape[0]

                def member(x):
                    p = wrap(pos(rterm(x)))
                    return core.b_and(p >= 0, p < n, wrap(rterm(g((p,))) == rterm(x)), F.member((p,)))
                plan.props['member'] = member
        return SArr(plan.out_shape, lambda idx: g(plan.src(idx)), self.dtype.kind, props=plan.props)

    def __setitem__(self, key, val):
        key = self._parse(key)
        if any(_is_adv(k) for k in key):
            return self._adv_set(key, val)
        specs = []
        out_shape = []
        ax = 0
        for k in key:
            if k is None:
                raise Unsupported("newaxis in assignment")
            n = self.shape[ax]
            if isinstance(k, slice):
                st, ln, step = norm_slice(k, n)
                if step != 1:
                    raise Unsupported("strided assignment")
                specs.append(('free', st, ln, None if (not is_sym(st) and st == 0 and same(ln, n)) else True))
                out_shape.append(ln)
            else:
                specs.append(('pt', norm_index(_as_index(k), n)))
            ax += 1
        vg = broadcast_getter(val, tuple(out_shape), self.dtype.kind)
        self._write(specs, vg)

    def _write(self, specs, vg):
        """specs per own axis"""
        if self.vmap is None:
            self.buf.write(Layer(specs, lambda free: vg(tuple(free))))
            return
        bspecs = []
        order = []
        for sp in self.vmap:
            if sp[0] == 'pt':
                bspecs.append(('pt', sp[1]))
            else:
                _, st, step, a = sp
                if step != 1:
                    raise Unsupported("strided view assignment")
                q = specs[a]
                if q[0] == 'pt':
                    bspecs.append(('pt', q[1] + st))
                else:
                    bspecs.append(('free', q[1] + st, q[2], True))
                    order.append(a)
        frees = [a for a, q in enumerate(specs) if q[0] == 'free']
        perm = [order.index(a) for a in frees]

        def val(free):
            return vg(tuple(free[p] for p in perm))
        self.buf.write(Layer(bspecs, val))

    def _adv_set(self, key, val):
        plan = adv_plan(self, key, for_set=True)
        old = self.getter()
        vg = broadcast_getter(val, plan.out_shape, self.dtype.kind)
        inv = plan.inverse
        if inv is None:
            raise Unsupported("advanced assignment without an inverse")

        def newval(idx):
            c, pos = inv(idx)
            if c is False:
                return old(idx)
            if c is True:
                return vg(pos)
            return ite(c, vg(pos), old(idx))
        nd = self.ndim
        self._write([('free', 0, n, None) for n in self.shape], lambda free: newval(tuple(free)))

    # -------------------------------------------------------------------------------- elementwise
    def _ew(self, o, f, kind=None):
        return elementwise(f, [self, o], kind)

    def __add__(self, o):
        if not _okop(o):
            return NotImplemented
        return self._ew(o, lambda a, b: a + b)

    def __radd__(self, o):
        return elementwise(lambda a, b: a + b, [o, self])

    def __sub__(self, o):
        if not _okop(o):
            return NotImplemented
        return self._ew(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return elementwise(lambda a, b: a - b, [o, self])

    def __mul__(self, o):
        if not _okop(o):
            return NotImplemented
        return self._ew(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return elementwise(lambda a, b: a * b, [o, self])

    def __truediv__(self, o):
        if not _okop(o):
            return NotImplemented
        return self._ew(o, core.div_total, 'f')

    def __rtruediv__(self, o):
        return elementwise(core.div_total, [o, self], 'f')

    def __floordiv__(self, o):
        return self._ew(o, core.floordiv)

    def __rfloordiv__(self, o):
        return elementwise(core.floordiv, [o, self])

    def __mod__(self, o):
        return self._ew(o, core.mod)

    def __pow__(self, o):
        return self._ew(o, core.power)

    def __rpow__(self, o):
        return elementwise(core.power, [o, self])

    def __neg__(self):
        return elementwise(lambda a: -a, [self])

    def __pos__(self):
        return self

    def __abs__(self):
        return elementwise(abs, [self])

    def __lt__(self, o):
        return self._ew(o, lambda a, b: a < b, 'b')

    def __le__(self, o):
        return self._ew(o, lambda a, b: a <= b, 'b')

    def __gt__(self, o):
        return self._ew(o, lambda a, b: a > b, 'b')

    def __ge__(self, o):
        return self._ew(o, lambda a, b: a >= b, 'b')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return elementwise(lambda a: a == o, [self], 'b')
        return self._ew(o, lambda a, b: a == b, 'b')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return elementwise(lambda a: a != o, [self], 'b')
        return self._ew(o, lambda a, b: a != b, 'b')

    def __and__(self, o):
        return self._ew(o, lambda a, b: b_and(a, b), 'b')

    __rand__ = __and__

    def __or__(self, o):
        return self._ew(o, lambda a, b: b_or(a, b), 'b')

    __ror__ = __or__

    def __invert__(self):
        return elementwise(lambda a: b_not(a), [self], 'b')

    def _inplace(self, o, f):
        r = elementwise(f, [self, o])
        if len(r.shape) != len(self.shape):
            raise ValueError("non-broadcastable output operand")
        g = r.getter()
        self._write([('free', 0, n, None) for n in self.shape], g)
        return self

    def __iadd__(self, o):
        return self._inplace(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._inplace(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        return self._inplace(o, core.div_total)

    def __ipow__(self, o):
        return self._inplace(o, core.power)

    def __matmul__(self, o):
        from . import npops
        return npops.matmul(self, o)

    def __rmatmul__(self, o):
        from . import npops
        return npops.matmul(o, self)

    # methods
    def sum(self, axis=None, **kw):
        from . import npops
        return npops.sum_(self, axis=axis, **kw)

    def mean(self, axis=None, **kw):
        from . import npops
        return npops.mean(self, axis=axis)

    def min(self, axis=None, **kw):
        from . import npops
        return npops.amin(self, axis=axis)

    def max(self, axis=None, **kw):
        from . import npops
        return npops.amax(self, axis=axis)

    def all(self, axis=None):
        from . import npops
        return npops.all_(self, axis)

    def any(self, axis=None):
        from . import npops
        return npops.any_(self, axis)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return transpose(self, axes or None)

    def ravel(self, order='C'):
        from . import npops
        return npops.ravel(self, order)

    def flatten(self, order='C'):
        from . import npops
        return npops.ravel(self, order)

    def reshape(self, *shape, order='C'):
        from . import npops
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return npops.reshape(self, shape, order)

    def squeeze(self, axis=None):
        from . import npops
        return npops.squeeze(self, axis)

    def take(self, idxs, axis=None):
        from . import npops
        return npops.take(self, idxs, axis)

    def tolist(self):
        return [x.tolist() if isinstance(x, SArr) else x for x in self]

    def item(self, *a):
        return self.at(*([0] * self.ndim))

    def dot(self, o):
        from . import npops
        return npops.dot(self, o)

    def fill(self, v):
        self[...] = v

    def argsort(self, *a, **k):
        from . import npops
        return npops.argsort(self, *a, **k)

    def sort(self, axis=-1, **k):
        from . import npops
        b = npops.sort(self, axis)
        self[...] = b

    def diagonal(self):
        g = self.getter()
        return SArr((self.shape[0],), lambda idx: g((idx[0], idx[0])), self.dtype.kind)

    def __contains__(self, x):
        from . import npops
        return bool(npops.any_(self == x))

    def __pv_merge__(self, c, o):
        if isinstance(o, SArr) and len(o.shape) == len(self.shape) and all(same(a, b) for a, b in
                                                                          zip(self.shape, o.shape)):
            g, h = self.getter(), o.getter()
            return SArr(self.shape, lambda idx: core.merge2(c, g(idx), h(idx)), self.dtype.kind)
        raise Unsupported("merge of arrays of different shape")

    def __repr__(self):
        return f"SArr{self.shape}"

    def __format__(self, spec):
        return repr(self)


def _okop(o):
    return isinstance(o, (SArr, SNum, SBool, list, tuple)) or _num(o)


def _as_index(k):
    if isinstance(k, SArr) and k.ndim == 0:
        return k.at()
    if isinstance(k, (SNum, int)):
        return k
    if hasattr(k, '__index__'):
        return k.__index__()
    if isinstance(k, Fraction) or isinstance(k, float):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean "
                         "arrays are valid indices")
    raise Unsupported(f"index of type {type(k)}")


def _is_mask(k):
    return isinstance(k, SArr) and k.dtype.kind == 'b' and k.ndim > 0


def _is_adv(k):
    return (isinstance(k, SArr) and k.ndim > 0) or isinstance(k, list) or getattr(k, '__pv_seq__', False)


def norm_slice(s, n):
    step = 1 if s.step is None else s.step
    if is_sym(step):
        raise Unsupported("symbolic slice step")
    if step == -1 and s.start is None and s.stop is None:
        return n - 1, n, -1
    if step < 1:
        raise Unsupported("negative slice step")

    def clip(v, default):
        if v is None:
            return default
        if isinstance(v, SArr):
            v = v.item()
        if not is_sym(v) and not is_sym(n):
            if v < 0:
                v = max(v + n, 0)
            return min(v, n)
        tv, tn = term(v), term(n)
        if not is_sym(v):
            neg = v < 0
        elif known(tv >= 0):
            neg = False
        elif known(tv < 0):
            neg = True
        else:
            neg = fork(tv < 0)
        if neg:
            w = wrap(tn + tv)
            if known(term(w) >= 0):
                return w
            return ite(wrap(term(w) >= 0), w, 0)
        if known(tv <= tn):
            return wrap(tv)
        return ite(wrap(tv <= tn), wrap(tv), n)
    st = clip(s.start, 0)
    en = clip(s.stop, n)
    ln = en - st
    if is_sym(ln):
        ln = wrap(z3.simplify(ln.t))
    if is_sym(ln):
        if not known(ln.t >= 0):
            ln = ite(wrap(ln.t >= 0), ln, 0)
    elif ln < 0:
        ln = 0
    if step != 1:
        ln = (ln + (step - 1)) // step
    return st, ln, step


def trunc(x):
    """int(): truncation towards zero"""
    if isinstance(x, (SBool, bool)):
        return wrap(term(x))
    if not is_sym(x):
        return int(x)
    if x.is_int:
        return x
    t = x.t
    return wrap(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


def as_arr(x):
    if isinstance(x, SArr):
        return x
    if getattr(x, '__pv_seq__', False):
        from .seqs import seq_to_array
        return seq_to_array(x)
    if type(x).__module__ == 'pyver.frames':
        return as_arr(x.values)
    if isinstance(x, (list, tuple)) or type(x).__name__ in ('dict_values', 'dict_keys', 'UserList', 'ValuesView',
                                                            'KeysView'):
        return from_list(list(x))
    if is_sym(x) or _num(x) and not hasattr(x, 'shape') or isinstance(x, (str, bytes)):
        return SArr((), lambda idx: x, scalar_kind(x))
    if hasattr(x, 'shape') and hasattr(x, 'tolist'):      # concrete numpy
        if x.shape == ():
            v = x.item()
            return SArr((), lambda idx: v, scalar_kind(v))
        return from_list(x.tolist())
    if hasattr(x, '__array__pv__'):
        return x.__array__pv__()
    raise Unsupported(f"cannot convert {type(x)} to array")


def from_list(xs):
    if not xs:
        return SArr((0,), lambda idx: Fraction(0), 'f')
    if any(isinstance(x, (SArr, list, tuple)) or getattr(x, '__pv_seq__', False) for x in xs):
        arrs = [as_arr(x) for x in xs]
        nd = arrs[0].ndim
        if any(a.ndim != nd for a in arrs):
            raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        from . import npops
        return npops.stack(arrs)
    kinds = {scalar_kind(x) for x in xs}
    kind = 'f' if 'f' in kinds else ('i' if 'i' in kinds else ('b' if kinds == {'b'} else ('U' if 'U' in kinds else 'O')))
    if kind == 'f':
        xs = [wrap(rterm(x)) if is_sym(x) else core.to_frac(x) for x in xs]
    xs = list(xs)
    return SArr((len(xs),), lambda idx: pick(xs, idx[0]), kind)


def pick(xs, i):
    if not is_sym(i):
        return xs[int(i)]
    v = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        if not (is_sym(v) or _num(v)) or not (is_sym(xs[j]) or _num(xs[j])):
            if xs[j] is v or (type(xs[j]) is type(v) and xs[j] == v):
                continue
            return xs[j] if fork(i.t == j) else pick_from(xs, i, j + 1)
        v = ite(wrap(i.t == j), xs[j], v)
    return v


def pick_from(xs, i, a):
    for j in range(a, len(xs) - 1):
        if fork(i.t == j):
            return xs[j]
    return xs[-1]


def dim_eq(a, b):
    """are two dimensions equal?  forks when undetermined"""
    if not is_sym(a) and not is_sym(b):
        return a == b
    return fork(term(a) == term(b))


def broadcast_shapes(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = 1
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            n = s[k]
            if not is_sym(n) and n == 1:
                continue
            if not is_sym(cur) and cur == 1:
                cur = n
                continue
            if cur is n or same(cur, n):
                continue
            # symbolic dims: may be 1
            if is_sym(n) and fork(n.t == 1):
                continue
            if is_sym(cur) and fork(cur.t == 1):
                cur = n
                continue
            if not dim_eq(cur, n):
                raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bget(a, g, nd, out_shape):
    """getter of array a broadcast to out_shape"""
    off = nd - a.ndim
    sh = a.shape
    ones = []
    for k, n in enumerate(sh):
        if not is_sym(n):
            ones.append(n == 1)
        else:
            o = out_shape[off + k]
            ones.append(False if (o is n or same(o, n)) else known(n.t == 1))

    def get(idx):
        return g(tuple(0 if ones[k] else idx[off + k] for k in range(len(sh))))
    return get


def elementwise(f, args, kind=None):
    arrs = [as_arr(a) for a in args]
    if all(a.ndim == 0 for a in arrs):
        r = f(*[a.at() for a in arrs])
        return r
    shape = broadcast_shapes([a.shape for a in arrs])
    gs = [bget(a, a.getter(), len(shape), shape) for a in arrs]
    if kind is None:
        ks = [a.dtype.kind for a in arrs]
        kind = 'f' if 'f' in ks else ('i' if 'i' in ks else 'b')
        if kind == 'b':
            kind = 'i' if len(ks) > 1 else 'b'
    return SArr(shape, lambda idx: f(*[g(idx) for g in gs]), kind)


def broadcast_getter(val, shape, kind='f'):
    a = as_arr(val)
    if a.ndim > len(shape):
        # leading ones may be dropped
        while a.ndim > len(shape) and not is_sym(a.shape[0]) and a.shape[0] == 1:
            a = a[0]
            a = as_arr(a)
        if a.ndim > len(shape):
            raise ValueError("could not broadcast input array")
    for k in range(a.ndim):
        n, o = a.shape[k], shape[len(shape) - a.ndim + k]
        if not is_sym(n) and n == 1:
            continue
        if not same(n, o):
            if is_sym(n) and known(n.t == 1):
                continue
            if not dim_eq(n, o):
                raise ValueError("could not broadcast input array from shape into shape")
    g = bget(a, a.getter(), len(shape), shape)
    if kind == 'i' and a.dtype.kind == 'f':
        return lambda idx: trunc(g(idx))
    return g


def transpose(a, axes=None):
    a = as_arr(a)
    nd = a.ndim
    if axes is None:
        axes = tuple(reversed(range(nd)))
    axes = tuple(x + nd if x < 0 else x for x in axes)
    if sorted(axes) != list(range(nd)):
        raise ValueError("axes don't match array")
    shape = tuple(a.shape[x] for x in axes)
    vm0 = a.vmap
    if vm0 is None:
        vm0 = [('free', 0, 1, d) for d in range(nd)]
    inv = {x: k for k, x in enumerate(axes)}
    vm = [sp if sp[0] == 'pt' else ('free', sp[1], sp[2], inv[sp[3]]) for sp in vm0]
    return SArr(shape, None, a.dtype.kind, buf=a.buf, vmap=vm)


# -------------------------------------------------------------------------------------------- advanced indexing
class Plan:
    pass


def adv_plan(arr, key, for_set=False):
    """supports: any number of 1-d.. integer arrays / one boolean mask / ints (broadcast together), slices elsewhere."""
    # expand masks into integer arrays through a Filter
    from .filters import compress_index
    exp = []
    for k in key:
        if isinstance(k, list) or getattr(k, '__pv_seq__', False):
            k = as_arr(k)
        if _is_mask(k):
            exp.append(('mask', k))
        else:
            exp.append(('k', k))
    axes = []       # per source axis: ('adv', array) | ('int', i) | ('slice', st, ln, step)
    ax = 0
    newaxis_before = []
    filt = None
    for tag, k in exp:
        if tag == 'mask':
            for d in range(k.ndim):
                if not same(k.shape[d], arr.shape[ax + d]):
                    if not dim_eq(k.shape[d], arr.shape[ax + d]):
                        raise IndexError("boolean index did not match indexed array")
            F = compress_index(k)
            if filt is not None:
                raise Unsupported("two masks")
            filt = F
            for d in range(k.ndim):
                axes.append(('mask', F, d))
            ax += k.ndim
        else:
            if k is None:
                axes.append(('new',))
                continue
            n = arr.shape[ax]
            if isinstance(k, slice):
                axes.append(('slice',) + norm_slice(k, n))
            elif isinstance(k, SArr) and k.ndim > 0:
                axes.append(('adv', k, n))
            else:
                axes.append(('int', norm_index(_as_index(k), n)))
            ax += 1
    advs = [a for a in axes if a[0] in ('adv', 'mask')]
    # contiguity of advanced axes (ints count as advanced)
    pos = [i for i, a in enumerate(axes) if a[0] in ('adv', 'mask', 'int')]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    bshape = broadcast_shapes([(a[1].shape if a[0] == 'adv' else (a[1].count,)) for a in advs])
    nb = len(bshape)
    out_shape = []
    layout = []   # for each non-adv out axis
    placed = False
    if not contiguous:
        out_shape.extend(bshape)
        bstart = 0
        placed = True
    src_slots = []
    for a in axes:
        if a[0] in ('adv', 'mask', 'int'):
            if not placed:
                bstart = len(out_shape)
                out_shape.extend(bshape)
                placed = True
            src_slots.append(a)
        elif a[0] == 'new':
            out_shape.append(1)
        else:
            src_slots.append(('slice', a[1], a[2], a[3], len(out_shape)))
            out_shape.append(a[2])
    getters = []
    for a in src_slots:
        if a[0] == 'adv':
            k = a[1]
            kg = bget(k, k.getter(), nb, bshape)
            getters.append((kg, a[2]))
    p = Plan()
    p.out_shape = tuple(out_shape)
    p.props = {}

    def src(idx):
        b = idx[bstart:bstart + nb]
        out = []
        gi = 0
        for a in src_slots:
            if a[0] == 'adv':
                kg, n = getters[gi]
                gi += 1
                v = kg(b)
                out.append(norm_index(v, n))
            elif a[0] == 'mask':
                out.append(a[1].source(b[0])[a[2]])
            elif a[0] == 'int':
                out.append(a[1])
            else:
                _, st, ln, step, o = a
                x = idx[o]
                if step != 1:
                    x = x * step
                out.append(x + st if (is_sym(st) or st != 0) else x)
        return tuple(out)
    p.src = src
    p.inverse = None
    if for_set:
        masks = [a for a in src_slots if a[0] == 'mask']
        if masks and not getters:
            F = masks[0][1]
            nd = len([a for a in masks])

            def inverse(idx):
                m = [idx[i] for i, a in enumerate(src_slots) if a[0] == 'mask']
                conds = [F.member(tuple(m))]
                outidx = [None] * len(out_shape)
                outidx[bstart] = F.rank(tuple(m))
                for i, a in enumerate(src_slots):
                    if a[0] == 'int':
                        conds.append(eq(idx[i], a[1]))
                    elif a[0] == 'slice':
                        if a[3] != 1:
                            raise Unsupported("strided adv set")
                        if not (not is_sym(a[1]) and a[1] == 0 and same(a[2], arr.shape[i])):
                            conds.append(wrap(z3.And(term(idx[i]) >= term(a[1]),
                                                     term(idx[i]) < term(a[1]) + term(a[2]))))
                        outidx[a[4]] = idx[i] - a[1]
                return b_and(*conds), tuple(outidx)
            p.inverse = inverse
        elif getters and nb == 1:
            # integer-array assignment: invertible when the index arrays come from one Filter, or are affine ranges
            sel = [a for a in src_slots if a[0] == 'adv']
            F = sel[0][1].props.get('filter_coord')
            if F is not None and all(a[1].props.get('filter_coord') is not None
                                     and a[1].props['filter_coord'][0] is F[0] for a in sel):
                order = [a[1].props['filter_coord'][1] for a in sel]
                filt0 = F[0]
                if sorted(order) == list(range(filt0.ndim)):
                    def inverse(idx):
                        vals = [idx[i] for i, a in enumerate(src_slots) if a[0] == 'adv']
                        m = [None] * filt0.ndim
                        for o, v in zip(order, vals):
                            m[o] = v
                        conds = [filt0.member(tuple(m))]
                        outidx = [None] * len(out_shape)
                        outidx[bstart] = filt0.rank(tuple(m))
                        for i, a in enumerate(src_slots):
                            if a[0] == 'slice':
                                outidx[a[4]] = idx[i] - a[1]
                            elif a[0] == 'int':
                                conds.append(eq(idx[i], a[1]))
                        return b_and(*conds), tuple(outidx)
                    p.inverse = inverse
            if p.inverse is None:
                n = bshape[0]
                if not is_sym(n):
                    def inverse(idx):
                        # concrete number of entries: last match wins
                        cond = False
                        posv = 0
                        for t in range(n):
                            c = []
                            gi = 0
                            for i, a in enumerate(src_slots):
                                if a[0] == 'adv':
                                    kg, nn = getters[gi]
                                    gi += 1
                                    c.append(eq(norm_index(kg((t,)), nn), idx[i]))
                                elif a[0] == 'int':
                                    c.append(eq(a[1], idx[i]))
                            c = b_and(*c)
                            posv = ite(c, t, posv)
                            cond = b_or(cond, c)
                        outidx = [None] * len(out_shape)
                        outidx[bstart] = posv
                        for i, a in enumerate(src_slots):
                            if a[0] == 'slice':
                                outidx[a[4]] = idx[i] - a[1]
                        return cond, tuple(outidx)
                    p.inverse = inverse
                else:
                    def inverse(idx):
                        t = z3.Int(core.fresh_name('?t'))
                        eqs = []
                        gi = 0
                        for i, a in enumerate(src_slots):
                            if a[0] == 'adv':
                                kg, nn = getters[gi]
                                gi += 1
                                with core.Scope(SBool(t >= 0), SBool(t < term(n))):
                                    e = norm_index(kg((SNum(t),)), nn)
                                eqs.append((e, idx[i]))
                            elif a[0] == 'int':
                                eqs.append((a[1], idx[i]))
                        sol = solve_vars([(t, z3.IntVal(0), term(n))], eqs)
                        sv = sol[0][1]
                        c = [wrap(z3.And(sv >= 0, sv < term(n)))]
                        for e, x in eqs:
                            c.append(wrap(z3.substitute(term(e), *sol) == term(x)))
                        outidx = [None] * len(out_shape)
                        outidx[bstart] = wrap(sv)
                        for i, a in enumerate(src_slots):
                            if a[0] == 'slice':
                                outidx[a[4]] = idx[i] - a[1]
                        return b_and(*c), tuple(outidx)
                    p.inverse = inverse
    return p
