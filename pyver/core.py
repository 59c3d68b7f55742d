"""pyver core: symbolic scalars, path conditions, forking, obligations.

The real function text of /repo is executed by CPython on the proxies defined here (see instrument.py for how the
text is loaded).  A scalar is a python number or an SNum / SBool wrapping a z3 term.  Reals are mathematical reals and
ints are mathematical integers.
"""
import time
import itertools
from fractions import Fraction
import z3

z3.set_param('smt.random_seed', 7)


class Unsupported(BaseException):
    """The verified text left the supported subset: the obligation is *undecided*, never violated."""


class PathEnd(BaseException):
    """Current path is infeasible or was deliberately ended."""


# --------------------------------------------------------------------------------------------------- state
class State:
    def __init__(self):
        self.reset_all()

    numpy_division = False

    def reset_all(self):
        self.numpy_division = False
        self.pc = []              # list of z3 bools
        self.counter = 0
        self.deciders = []
        self.solver_time = 0.0
        self.queries = 0
        self.sum_registry = {}
        self.sum_cache = {}
        self.swapped = {}
        self.facts = []           # global axioms (instances) valid for this path
        self.filters = []
        self.loop_depth = 0
        self.timeout_ms = 8000
        self.refuted_names = set()
        self.weak = False         # an over-approximation was used on this path
        self.deadline = None
        self.assumed = set()
        self.functions = set()
        self.loops = []
        self.uf_axioms = set()
        self.hooks = []           # callables run when preparing a proof (add lemma instances)
        self.scope = []


S = State()


def fresh_name(prefix):
    S.counter += 1
    return f"{prefix}!{S.counter}"


# --------------------------------------------------------------------------------------------------- scalars
def is_sym(x):
    return isinstance(x, (SNum, SBool))


def to_frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported(f"non-finite float {x}")
        return Fraction(repr(x))
    if hasattr(x, 'item'):
        return to_frac(x.item())
    raise Unsupported(f"not a number: {type(x)}")


def term(x):
    """z3 arithmetic term of a scalar."""
    if isinstance(x, SNum):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if z3.is_expr(x):
        return x
    f = to_frac(x)
    return z3.RealVal(f)


def rterm(x):
    t = term(x)
    return z3.ToReal(t) if t.is_int() else t


def bterm(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SNum):
        return x.t != 0
    if z3.is_expr(x):
        return x
    if hasattr(x, '__pv_bool__'):
        return bterm(x.__pv_bool__())
    return z3.BoolVal(bool(x))


def wrap(t):
    """wrap a z3 term, folding constants to python numbers."""
    if z3.is_bool(t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return t.as_fraction()
    if z3.is_app(t) and t.num_args() <= 3 and all(z3.is_int_value(a) or z3.is_rational_value(a) for a in t.children()) \
            and t.num_args() > 0:
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_rational_value(s):
            return s.as_fraction()
    return SNum(t)


def _num(x):
    return isinstance(x, (int, float, Fraction)) or type(x).__module__ == 'numpy'


def _isarr(x):
    return getattr(x, '__pv_array__', False)


class SNum:
    __slots__ = ('t',)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    @property
    def is_int(self):
        return self.t.is_int()

    # numpy-scalar-like attributes
    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    def item(self):
        return self

    def copy(self):
        return self

    def _bin(self, o, f):
        if isinstance(o, (SNum, SBool)) or _num(o):
            return wrap(f(self.t, term(o)))
        return NotImplemented

    def _rbin(self, o, f):
        if isinstance(o, (SNum, SBool)) or _num(o):
            return wrap(f(term(o), self.t))
        return NotImplemented

    def __add__(self, o):
        if _num(o) and o == 0 and not (self.is_int and isinstance(o, (float, Fraction))):
            return self
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if _num(o) and o == 0 and not (self.is_int and isinstance(o, (float, Fraction))):
            return self
        return self._rbin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._rbin(o, lambda a, b: a - b)

    def __mul__(self, o):
        if _num(o):
            if o == 1 and not (self.is_int and isinstance(o, (float, Fraction))):
                return self
            if o == 0:
                return 0 if self.is_int and isinstance(o, int) else Fraction(0)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if _num(o):
            return self.__mul__(o)
        return self._rbin(o, lambda a, b: a * b)

    def __truediv__(self, o):
        if isinstance(o, (SNum, SBool)) or _num(o):
            return div(self, o)
        return NotImplemented

    def __rtruediv__(self, o):
        if isinstance(o, (SNum, SBool)) or _num(o):
            return div(o, self)
        return NotImplemented

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return wrap(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        if len(self.t.sexpr()) < 40:
            if known(self.t >= 0, 200):
                return self
            if known(self.t <= 0, 200):
                return wrap(-self.t)
        return ite(wrap(self.t >= 0), self, wrap(-self.t))

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin(o, lambda a, b: a != b)

    def __bool__(self):
        return fork(self.t != 0)

    def __hash__(self):
        v = concretize(self)
        if v is None:
            raise Unsupported("hash of symbolic number")
        return hash(v)

    def __index__(self):
        v = concretize(self)
        if v is None:
            raise Unsupported(f"symbolic integer used where a concrete one is needed: {self.t}")
        return int(v)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        v = concretize(self)
        if v is None:
            raise Unsupported("float() of symbolic number")
        return float(v)

    def __repr__(self):
        return f"<{self.t}>"

    def __format__(self, spec):
        raise Unsupported("symbolic number formatted into a string")

    def __str__(self):
        return f"<{self.t}>"


class SBool:
    __slots__ = ('t',)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return fork(self.t)

    def __and__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap(z3.And(self.t, bterm(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap(z3.Or(self.t, bterm(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap(z3.Xor(self.t, bterm(o)))
        return NotImplemented

    def __invert__(self):
        return wrap(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap(self.t == bterm(o))
        return wrap(term(self) == term(o))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __add__(self, o):
        return wrap(term(self) + term(o))

    __radd__ = __add__

    def __sub__(self, o):
        return wrap(term(self) - term(o))

    def __rsub__(self, o):
        return wrap(term(o) - term(self))

    def __mul__(self, o):
        if isinstance(o, (SNum, SBool)) or _num(o):
            return ite(self, o if not isinstance(o, (SBool, bool)) else wrap(term(o)),
                       0 if (isinstance(o, int) or (isinstance(o, SNum) and o.is_int)) else Fraction(0))
        return NotImplemented

    __rmul__ = __mul__

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def __repr__(self):
        return f"<{self.t}>"


def div(a, b):
    """true division; a symbolic divisor gets a 'nonzero' fork (ZeroDivision is real behaviour only for python scalars;
    numpy gives nan/inf which is outside the mathematical-real model)."""
    if not is_sym(b) and _num(b):
        fb = to_frac(b)
        if fb == 0:
            raise ZeroDivisionError("division by zero")
        if not is_sym(a):
            return to_frac(a) / fb
        return a * (Fraction(1) / fb) if fb != 1 else wrap(rterm(a))
    tb = rterm(b)
    if S.numpy_division:
        return wrap(rterm(a) / tb)
    if not known(tb != 0):
        nz = fork(tb != 0)
        if not nz:
            raise ZeroDivisionError("division by zero")
    return wrap(rterm(a) / tb)


def div_total(a, b):
    """array division: no exception in numpy (nan/inf).  The mathematical model requires a nonzero divisor; an element
    whose divisor may be zero is recorded as an uninterpreted value (z3's x/0)."""
    if not is_sym(b) and _num(b):
        fb = to_frac(b)
        if fb != 0:
            if not is_sym(a):
                return to_frac(a) / fb
            return a * (Fraction(1) / fb) if fb != 1 else wrap(rterm(a))
    return wrap(rterm(a) / rterm(b))


def floordiv(a, b):
    if not is_sym(a) and not is_sym(b):
        return a // b
    ta, tb = term(a), term(b)
    if ta.is_int() and tb.is_int():
        if not known(tb > 0):
            raise Unsupported("floor division by a non-positive symbolic integer")
        return wrap(ta / tb)
    return wrap(z3.ToInt(rterm(a) / rterm(b)))


def mod(a, b):
    if isinstance(a, str):
        raise Unsupported("string formatting with symbolic value")
    if not is_sym(a) and not is_sym(b):
        return a % b
    ta, tb = term(a), term(b)
    if ta.is_int() and tb.is_int():
        if not known(tb > 0):
            raise Unsupported("modulo by a non-positive symbolic integer")
        return wrap(ta % tb)
    raise Unsupported("real modulo")


def power(a, b):
    if not is_sym(a) and not is_sym(b):
        if isinstance(a, (int, Fraction)) and isinstance(b, int) and not isinstance(a, bool):
            if b < 0:
                return Fraction(a) ** b
            return a ** b
        fa, fb = to_frac(a), to_frac(b)
        if fb.denominator == 1:
            return fa ** int(fb)
        return uf('pow', rterm(fa), rterm(fb))
    if not is_sym(b):
        fb = to_frac(b)
        if fb.denominator == 1 and abs(fb) <= 16:
            n = int(fb)
            if n == 0:
                return 1
            r = a
            for _ in range(abs(n) - 1):
                r = r * a
            if n < 0:
                r = div_total(1, r)
            elif isinstance(b, (float, Fraction)) and is_sym(r):
                r = wrap(rterm(r))
            return r
        if fb == Fraction(1, 2):
            return usqrt(a)
    if not is_sym(a) and to_frac(a) == 10:
        return uexp10(b)
    return uf('pow', rterm(a), rterm(b))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return wrap(z3.If(bterm(c), bterm(a), bterm(b)))
    if not (is_sym(a) or _num(a)) or not (is_sym(b) or _num(b)):
        if isinstance(a, type(b)) and a == b:
            return a
        return a if fork(bterm(c)) else b
    ta, tb = term(a), term(b)
    if ta.is_int() != tb.is_int():
        ta, tb = rterm(a), rterm(b)
    if ta.eq(tb):
        return wrap(ta)
    return wrap(z3.If(bterm(c), ta, tb))


def b_and(*cs):
    return wrap(z3.And(*[bterm(c) for c in cs])) if cs else True


def b_or(*cs):
    return wrap(z3.Or(*[bterm(c) for c in cs])) if cs else False


def b_not(c):
    return wrap(z3.Not(bterm(c)))


def implies(a, b):
    return wrap(z3.Implies(bterm(a), bterm(b)))


# ------------------------------------------------------------------------------- uninterpreted math with axioms
_UFS = {}


def ufd(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _UFS:
        _UFS[k] = z3.Function(name, *sorts)
    return _UFS[k]


R = z3.RealSort()
I = z3.IntSort()


def uf(name, *ts):
    f = ufd(name, *([t.sort() for t in ts] + [R]))
    return wrap(f(*ts))


def add_fact(f):
    key = f.get_id()
    if key not in S.uf_axioms:
        S.uf_axioms.add(key)
        S.facts.append(f)


def pi():
    t = z3.Real('pi')
    add_fact(z3.And(t > z3.Q(314159, 100000), t < z3.Q(31416, 10000)))
    return SNum(t)


def usqrt(x):
    if not is_sym(x):
        f = to_frac(x)
        import math
        if f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return Fraction(a, b)
    t = rterm(x)
    from . import sums
    r = sums.perfect_square(t)
    if r is not None:
        if known(r >= 0):
            return wrap(r)
        if known(r <= 0):
            return wrap(-r)
        return wrap(z3.If(r >= 0, r, -r))
    s = ufd('sqrt', R, R)(t)
    return SNum(s)


def uexp10(x):
    if not is_sym(x):
        f = to_frac(x)
        if f.denominator == 1 and abs(f) < 40:
            return Fraction(10) ** int(f)
    t = rterm(x)
    return wrap(ufd('exp10', R, R)(t))


def ulog10(x):
    if not is_sym(x):
        f = to_frac(x)
        for n in range(-30, 31):
            if Fraction(10) ** n == f:
                return Fraction(n)
    return wrap(ufd('log10', R, R)(rterm(x)))


def uexp(x):
    if not is_sym(x) and to_frac(x) == 0:
        return Fraction(1)
    return wrap(ufd('exp', R, R)(rterm(x)))


def ulog(x):
    if not is_sym(x) and to_frac(x) == 1:
        return Fraction(0)
    return wrap(ufd('log', R, R)(rterm(x)))


def math_axioms(ts):
    """ground instances of the (trusted, textbook) facts about sqrt / exp / log for the applications occurring in ts."""
    out = []
    seen = {}
    apps = {'sqrt': [], 'exp10': [], 'log10': [], 'exp': [], 'log': []}
    if not isinstance(ts, TermSet):
        ts = TermSet(ts)
    for n in apps:
        apps[n] = [e for e in ts.index.get(n, ()) if e.num_args() == 1]
    for e in apps['sqrt']:
        x = e.arg(0)
        out.append(z3.Implies(x >= 0, z3.And(e >= 0, e * e == x)))
        out.append(z3.Implies(x > 0, e > 0))
    for e in ts.index.get('pow', ()):
        if e.num_args() == 2:
            x, y = e.arg(0), e.arg(1)
            out.append(z3.Implies(x > 0, e > 0))
            out.append(z3.Implies(z3.Or(x == 1, y == 0), e == 1))
            out.append(z3.Implies(y == 1, e == x))
    for nm, inv in (('exp10', 'log10'), ('exp', 'log')):
        fi = ufd(inv, R, R)
        fe = ufd(nm, R, R)
        for e in apps[nm]:
            out.append(e > 0)
            out.append(fi(e) == e.arg(0))
            out.append(z3.Implies(e.arg(0) == 0, e == 1))
            x = e.arg(0)
            if z3.is_add(x):
                pass
        for e in apps[inv]:
            x = e.arg(0)
            out.append(z3.Implies(x > 0, fe(e) == x))
            out.append(z3.Implies(x == 1, e == 0))
        es = apps[nm] + [fe(e) for e in apps[inv]]
        for a, b in itertools.combinations(es, 2):
            out.append((a.arg(0) < b.arg(0)) == (a < b))
            out.append((a.arg(0) == b.arg(0)) == (a == b))
    return out


_appcache = {}


def term_apps(t):
    """[(decl name, application, id)] of the uninterpreted applications with arguments occurring in t (memoised)"""
    i = t.get_id()
    r = _appcache.get(i)
    if r is not None:
        return r[1]
    out = []
    for e in subterms([t]):
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and (e.num_args() > 0 or d.name().startswith('SUM_')):
                out.append((d.name(), e, e.get_id()))
    _appcache[i] = (t, out)
    return out


class TermSet(list):
    """a list of terms with an index of their uninterpreted applications by name"""

    def __init__(self, ts, base=None):
        if base is not None:
            super().__init__(base)
            self.index = {n: list(v) for n, v in base.index.items()}
            self.ids = set(base.ids)
        else:
            super().__init__()
            self.index, self.ids = {}, set()
        for t in ts:
            self.append(t)
            for n, e, i in term_apps(t):
                if i not in self.ids:
                    self.ids.add(i)
                    self.index.setdefault(n, []).append(e)


def subterms(ts):
    seen = set()
    stack = list(ts)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield e
        if z3.is_app(e):
            stack.extend(e.children())
        elif z3.is_quantifier(e):
            stack.append(e.body())


# --------------------------------------------------------------------------------------------- solver / forking
def check_time():
    if S.deadline is not None and time.time() > S.deadline:
        raise Unsupported("time budget exhausted")


def _solve(assertions, timeout=None, want_model=False):
    check_time()
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout or S.timeout_ms)
    for a in assertions:
        s.add(a)
    r = s.check()
    S.solver_time += time.time() - t0
    S.queries += 1
    if want_model:
        return r, (s.model() if r == z3.sat else None)
    return r


class Purifier:
    """the Sum terms are uninterpreted applications already; nothing to purify."""


def context():
    return list(S.pc) + list(S.facts)


_known_cache = {}


def known(cond, timeout=1500):
    """is cond entailed by the path condition (quick check)?"""
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    ctx = context()
    key = (tuple(a.get_id() for a in ctx), cond.get_id())
    if key in _known_cache:
        return _known_cache[key][0]
    from . import sums
    extra = sums.prepare(ctx + [cond], light=True)
    r = _solve(ctx + extra + [z3.Not(cond)], timeout) == z3.unsat
    _known_cache[key] = (r, ctx, cond)      # keep terms alive so ids stay unique
    return r


def feasible(cond=None, timeout=3000):
    ctx = context()
    from . import sums
    from . import nlabs
    q = ctx + ([cond] if cond is not None else [])
    q = q + sums.prepare(q, light=True)
    if nlabs.refute(q):
        return False
    r = _solve(q, timeout)
    return r != z3.unsat


def concretize(x):
    if not is_sym(x):
        return x
    t = z3.simplify(x.t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return t.as_fraction()
    ctx = context()
    r, m = _solve(ctx, 1500, want_model=True)
    if r != z3.sat:
        return None
    v = m.eval(x.t, model_completion=True)
    if (z3.is_int_value(v) or z3.is_rational_value(v)) and known(x.t == v):
        return v.as_long() if z3.is_int_value(v) else v.as_fraction()
    return None


def settle(t, limit=24):
    """t with the index conditions of its if-then-else terms that the path condition decides replaced by their value"""
    t = z3.simplify(t)
    for _ in range(limit):
        sub, seen = [], set()
        for e in subterms([t]):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and e.arg(0).get_id() not in seen:
                todo = [e.arg(0)]
                while todo:
                    c = todo.pop()
                    if c.get_id() in seen:
                        continue
                    seen.add(c.get_id())
                    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
                        todo.extend(c.children())
                    elif is_index_condition(c):
                        if known(c, 500):
                            sub.append((c, z3.BoolVal(True)))
                        elif known(z3.Not(c), 500):
                            sub.append((c, z3.BoolVal(False)))
        if not sub:
            return t
        t = z3.simplify(z3.substitute(t, *sub))
    return t


def is_index_condition(c):
    return (z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c) or z3.is_eq(c)) and z3.is_arith(c.arg(0)) and c.arg(0).is_int()


class Decider:
    """Depth-first enumeration of branch decisions by re-execution."""

    def __init__(self):
        self.prefix = []       # list of [value, other_branch_pending, forced]
        self.pos = 0

    def begin(self):
        self.pos = 0

    def decide(self, cond):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][0]
            self.pos += 1
            return v
        tf = feasible(cond)
        ff = feasible(z3.Not(cond))
        if tf and ff:
            self.prefix.append([True, True])
            v = True
        elif tf:
            self.prefix.append([True, False])
            v = True
        elif ff:
            self.prefix.append([False, False])
            v = False
        else:
            raise PathEnd("infeasible")
        self.pos += 1
        return v

    def choose(self, options):
        """n-ary concrete choice, encoded as decisions"""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][0]
            self.pos += 1
            return options[v[1]]
        self.prefix.append([('c', 0), len(options) > 1, len(options)])
        self.pos += 1
        return options[0]

    def advance(self):
        """move to the next unexplored path; False when done"""
        del self.prefix[self.pos:]
        while self.prefix:
            last = self.prefix[-1]
            if isinstance(last[0], tuple):
                k = last[0][1] + 1
                if k < last[2]:
                    self.prefix[-1] = [('c', k), k + 1 < last[2], last[2]]
                    return True
            elif last[1]:
                self.prefix[-1] = [not last[0], False]
                return True
            self.prefix.pop()
        return False


MAX_LOCAL_PATHS = 64


def fork(cond):
    """decide a symbolic branch condition on the current path"""
    check_time()
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    if not S.deciders:
        raise Unsupported("symbolic branch outside exploration")
    d = S.deciders[-1]
    v = d.decide(cond)
    S.pc.append(cond if v else z3.Not(cond))
    return v


def local_paths(thunk, what='expression'):
    """run a side-effect-free thunk once per feasible local path; returns [(list of z3 conds, value)].
    Exceptions raised by the thunk propagate with the path condition of the raising path."""
    d = Decider()
    out = []
    base = len(S.pc)
    S.deciders.append(d)
    ok = False
    try:
        while True:
            d.begin()
            try:
                v = thunk()
                out.append((S.pc[base:], v))
            except PathEnd:
                pass
            if len(out) > MAX_LOCAL_PATHS:
                raise Unsupported(f"too many local paths in {what}")
            if not d.advance():
                break
            del S.pc[base:]
        ok = True
    finally:
        S.deciders.pop()
        if ok:
            del S.pc[base:]
    return out


def merged(thunk, what='expression'):
    """evaluate a pure thunk, merging its local branches with if-then-else"""
    ps = local_paths(thunk, what)
    if not ps:
        raise PathEnd("infeasible")
    return merge_values(ps)


def merge_values(ps):
    val = ps[-1][1]
    for conds, v in reversed(ps[:-1]):
        val = merge2(z3.And(*conds) if conds else z3.BoolVal(True), v, val)
    return val


def merge2(c, a, b):
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge2(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [merge2(c, x, y) for x, y in zip(a, b)]
    if (is_sym(a) or _num(a)) and (is_sym(b) or _num(b)):
        return ite(SBool(c), a, b)
    if hasattr(a, '__pv_merge__'):
        return a.__pv_merge__(c, b)
    if type(a) is type(b):
        try:
            if a == b:
                return a
        except BaseException:
            pass
    raise Unsupported(f"cannot merge values of types {type(a).__name__} and {type(b).__name__}")


class Scope:
    """temporarily add path-condition facts"""

    def __init__(self, *conds):
        self.conds = conds

    def __enter__(self):
        self.base = len(S.pc)
        S.pc.extend(bterm(c) for c in self.conds)

    def __exit__(self, et, ev, tb):
        if et is None:
            del S.pc[self.base:]


def assume(c):
    S.pc.append(bterm(c))


def fresh_int(name='?i'):
    return SNum(z3.Int(fresh_name(name)))


def fresh_real(name='?x'):
    return SNum(z3.Real(fresh_name(name)))


def bvar(name='?k'):
    """bound / generic integer variable (name starts with '?' so that Sum parameters track it)"""
    return SNum(z3.Int(fresh_name('?' + name.lstrip('?'))))
