"""contract layer: a contract is written once and interpreted twice
   * VC: inputs symbolic, the instrumented text of /repo executed symbolically, every `ensure` an obligation for the solver
   * CC: inputs concrete, the untouched code of /repo executed by CPython, every `ensure` evaluated (replay of solver
     counter-models, and a bounded run-time check)"""
import importlib
import itertools
import math
import os
import random
import time
import traceback
from fractions import Fraction

REGISTRY = []


class Contract:
    def __init__(self, fn, prop, name, functions, mode, trials, weight, doc, bound):
        self.fn, self.prop, self.name, self.functions = fn, prop, name, functions
        self.mode, self.trials, self.weight, self.doc, self.bound = mode, trials, weight, doc, bound


def script(name):
    """the executable script bin/NAME of the repository as a module bin__NAME"""
    import importlib.machinery
    import importlib.util
    import sys
    if name not in sys.modules:
        import seyfert
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(seyfert.__file__))), 'bin', name[5:])
        if not os.path.exists(p):
            raise ImportError(p)
        m = importlib.util.module_from_spec(importlib.util.spec_from_loader(name, importlib.machinery.SourceFileLoader(name, p)))
        keep, sys.dont_write_bytecode = sys.dont_write_bytecode, True
        try:
            m.__spec__.loader.exec_module(m)
        finally:
            sys.dont_write_bytecode = keep
        sys.modules[name] = m
    return sys.modules[name]


def contract(prop, functions, name=None, mode='both', trials=60, weight=1, bound=None):
    """mode: 'both' (proved, plus bounded run-time evaluation) | 'bounded' (run-time evaluation only) | 'proof'"""
    def deco(fn):
        REGISTRY.append(Contract(fn, prop, name or fn.__name__, functions, mode, trials, weight, fn.__doc__ or '', bound))
        return fn
    return deco


class AnchorMissing(Exception):
    pass


class Failed(Exception):
    """a contract was violated in a concrete run"""

    def __init__(self, name, detail):
        super().__init__(name)
        self.name, self.detail = name, detail


class Skip(Exception):
    """the precondition does not hold for this concrete input"""


# ============================================================================================== symbolic context
class VC:
    sym = True

    def __init__(self, universe, contract, decider):
        from . import core
        self.u = universe
        self.contract = contract
        self.core = core
        self.inputs = {}
        self.decider = decider
        self.obl = []          # (name, status, detail)
        self.covered = False
        self.rng = random.Random(0)

    # ---- program access
    def target(self, path):
        modname, _, attr = path.partition(':')
        try:
            try:
                m = self.u.load(modname)
            except (ImportError, FileNotFoundError):
                raise
            except Exception as e:
                raise self.core.Unsupported(f"loading {modname}: {type(e).__name__}: {e}")
            o = m
            for a in attr.split('.') if attr else []:
                o = getattr(o, a)
            return o
        except (ImportError, AttributeError, FileNotFoundError) as e:
            raise AnchorMissing(f"{path}: {e}")

    mod = target

    def stub(self, path, value):
        """an input the code fetches by itself (a file read): supplied by the contract, symbolically and at run time"""
        self.patch(path, value)

    def patch(self, path, value):
        """modular step: replace a callee by (an object carrying) its contract"""
        modname, _, attr = path.partition(':')
        m = self.target(modname)
        parts = attr.split('.')
        o = m
        for a in parts[:-1]:
            o = getattr(o, a)
        if not hasattr(o, parts[-1]):
            raise AnchorMissing(path)
        self.patches.append((o, parts[-1], o.__dict__.get(parts[-1], getattr(o, parts[-1]))))
        setattr(o, parts[-1], value)

    # ---- inputs
    def _reg(self, name, rec):
        self.inputs[name] = rec

    def int(self, name, lo=None, hi=None, conc=None):
        import z3
        x = self.core.SNum(z3.Int(name))
        self._reg(name, ('int', x.t))
        if lo is not None:
            self.core.assume(x >= lo)
        if hi is not None:
            self.core.assume(x <= hi)
        return x

    def real(self, name, lo=None, hi=None, conc=None, positive=False, nonzero=False):
        import z3
        x = self.core.SNum(z3.Real(name))
        self._reg(name, ('real', x.t))
        if lo is not None:
            self.core.assume(x >= lo)
        if hi is not None:
            self.core.assume(x <= hi)
        if positive:
            self.core.assume(x > 0)
        if nonzero:
            self.core.assume(x != 0)
        return x

    def bool(self, name):
        import z3
        b = self.core.SBool(z3.Bool(name))
        self._reg(name, ('bool', b.t))
        return b

    def choice(self, name, options):
        v = self.decider.choose(list(options))
        self._reg(name, ('choice', list(options).index(v)))
        return v

    def array(self, name, shape, symmetric=False, positive=False, nonneg=False, increasing=False, integer=False, lo=None,
              hi=None, conc=None, gen=None, nonzero=False):
        import z3
        core = self.core
        from .arrays import SArr
        shape = tuple(shape)
        sort = core.I if integer else core.R
        f = z3.Function(name, *([core.I] * len(shape) + [sort]))
        self._reg(name, ('array', f, shape, symmetric, increasing))

        def el(idx):
            ts = [core.term(i) for i in idx]
            if symmetric:
                i, j = ts[-2], ts[-1]
                if z3.is_int_value(i) and z3.is_int_value(j):
                    if i.as_long() > j.as_long():
                        i, j = j, i
                elif not i.eq(j):
                    if core.known(i <= j, 400):
                        pass
                    elif core.known(j <= i, 400):
                        i, j = j, i
                    else:
                        i, j = z3.If(i <= j, i, j), z3.If(i <= j, j, i)
                ts = ts[:-2] + [i, j]
            return core.wrap(f(*ts))
        props = {}
        if increasing:
            props['increasing'] = True
            pos = z3.Function(name + '_pos', core.R, core.I)
            props['posF'] = pos
            n = core.term(shape[0])

            def hook(ts, light, f=f, pos=pos, n=n):
                from .filters import _apps
                out = []
                apps = _apps(ts, [f, pos])
                ks = {}
                for e in apps[f.name()]:
                    k = e.arg(0)
                    ks[k.get_id()] = k
                    v = z3.ToReal(e) if integer else e
                    out.append(z3.Implies(z3.And(k >= 0, k < n), pos(v) == k))
                for e in apps[pos.name()]:
                    ks[e.get_id()] = e
                for a, b in itertools.combinations(ks.values(), 2):
                    out.append(z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < n),
                                          z3.And((a < b) == (f(a) < f(b)), (a == b) == (f(a) == f(b)))))
                return out
            core.S.hooks.append(hook)
        if positive or nonneg or lo is not None or hi is not None or nonzero:
            def hook2(ts, light, f=f):
                from .filters import _apps
                out = []
                for e in _apps(ts, [f])[f.name()]:
                    inb = z3.And(*[z3.And(a >= 0, a < core.term(s)) for a, s in zip(e.children(), shape)])
                    cs = []
                    if positive:
                        cs.append(e > 0)
                    if nonneg:
                        cs.append(e >= 0)
                    if nonzero:
                        cs.append(e != 0)
                    if lo is not None:
                        cs.append(e >= core.rterm(lo) if not integer else e >= core.term(lo))
                    if hi is not None:
                        cs.append(e <= core.rterm(hi) if not integer else e <= core.term(hi))
                    out.append(z3.Implies(inb, z3.And(*cs)))
                return out
            core.S.hooks.append(hook2)
        return SArr(shape, el, 'i' if integer else 'f', props=props)

    def fn(self, name, nargs=1, positive=False, gen=None):
        """an arbitrary real function of nargs real arguments, applicable to scalars and (elementwise) arrays"""
        import z3
        core = self.core
        from .arrays import elementwise, SArr
        f = z3.Function(name, *([core.R] * (nargs + 1)))
        self._reg(name, ('fn', f, nargs))
        if positive:
            def hook(ts, light):
                from .filters import _apps
                return [e > 0 for e in _apps(ts, [f])[f.name()]]
            core.S.hooks.append(hook)

        def g(*xs):
            if any(isinstance(x, SArr) for x in xs):
                return elementwise(lambda *a: core.wrap(f(*[core.rterm(y) for y in a])), list(xs), 'f')
            return core.wrap(f(*[core.rterm(y) for y in xs]))
        return g

    def lines_are_exact(self):
        """use the (trusted) fact that the least-squares line of points on a line is that line"""
        if self.sym:
            from . import npops
            self.core.S.hooks.append(npops.line_facts)

    def line_fit(self, xs, ys):
        """(slope, intercept) of the least-squares line"""
        from .npops import line_fit
        return line_fit(xs, ys)

    def scratch_dir(self, stand_in):
        import contextlib
        return contextlib.nullcontext(stand_in)

    def pd_matrix(self, name, labels):
        """entries (dict by pair of labels) of an arbitrary symmetric positive definite matrix (definiteness is used by the
        concrete runs only)"""
        v = {}
        for i, a in enumerate(labels):
            for b in labels[i:]:
                v[(a, b)] = v[(b, a)] = self.real(f'{name}_{a}_{b}', positive=(a == b))
        return v

    def inverse(self, v, labels):
        """entries of the inverse of the matrix v restricted to the labels"""
        from .arrays import from_list
        from .matrices import concrete_inverse
        labels = sorted(labels)
        if not labels:
            return {}
        x = concrete_inverse(from_list([[v[(a, b)] for b in labels] for a in labels]))
        return {(a, b): x.at(i, j) for i, a in enumerate(labels) for j, b in enumerate(labels)}

    # ---- logic
    def require(self, cond):
        self.core.assume(cond)

    def ensure(self, name, cond):
        from . import proof
        core = self.core
        self.cover()
        st, model = proof.check(cond)
        self.obl.append((name, st, None))
        if st == 'refuted':
            raise Refuted(name, model, self)
        if st == 'unknown':
            raise core.Unsupported(f"solver gave no answer for {name}")

    def cover(self):
        """reachability of the precondition (vacuity guard)"""
        if self.covered:
            return
        core = self.core
        from . import sums
        ctx = core.context()
        r = core._solve(ctx + sums.prepare(ctx, light=True), 5000)
        import z3
        if r == z3.unsat:
            raise core.PathEnd("infeasible path")
        self.covered = (r == z3.sat) or 'unknown'

    def forall(self, name, dims, fn):
        """for all indices k_d in [0, dims_d): fn(*k)"""
        core = self.core
        ks, conds = [], []
        for d in dims:
            if not core.is_sym(d) and not isinstance(d, tuple):
                d = (0, d)
            lo, hi = d if isinstance(d, tuple) else (0, d)
            k = core.bvar('?a')
            ks.append(k)
            conds += [k >= lo, k < hi]
        base = len(core.S.pc)
        with core.Scope(*conds):
            if not core.feasible():
                self.obl.append((name, 'proved', 'empty range'))
                return
            vals = core.local_paths(lambda: fn(*ks), name)
            for cs, v in vals:
                with core.Scope(*[core.SBool(c) for c in cs]):
                    if v is None:
                        continue
                    for q, vv in enumerate(v if isinstance(v, (list, tuple)) else [v]):
                        self.ensure(name if not isinstance(v, (list, tuple)) else f"{name}.{q}", vv)

    def forall_real(self, name, nvars, fn, cond=None):
        core = self.core
        xs = [core.fresh_real('?r') for _ in range(nvars)]
        with core.Scope(*([cond(*xs)] if cond else [])):
            for cs, v in core.local_paths(lambda: fn(*xs), name):
                with core.Scope(*[core.SBool(c) for c in cs]):
                    self.ensure(name, v)

    def raises(self, name, exc, thunk):
        core = self.core
        S = core.S
        saved = (list(S.deciders), list(S.loops), S.loop_depth)
        try:
            thunk()
        except exc:
            S.deciders[:], S.loops[:], S.loop_depth = saved[0], saved[1], saved[2]
            self.cover()
            self.obl.append((name, 'proved', None))
            return
        self.ensure(name, False)

    def eq(self, a, b):
        core = self.core
        if isinstance(a, (str, bytes, type(None), bool)) or isinstance(b, (str, bytes, type(None), bool)):
            return a == b
        return core.wrap(core.term(a) == core.term(b)) if not (core.term(a).is_int() != core.term(b).is_int()) \
            else core.wrap(core.rterm(a) == core.rterm(b))

    def and_(self, *cs):
        return self.core.b_and(*cs)

    def or_(self, *cs):
        return self.core.b_or(*cs)

    def not_(self, c):
        return self.core.b_not(c)

    def implies(self, a, b):
        return self.core.implies(a, b)

    def ite(self, c, a, b):
        return self.core.merge2(self.core.bterm(c), a, b)

    def sum(self, lo, hi, fn):
        from . import sums
        return sums.make_sum(lo, hi, fn)

    def require_common(self, arrays):
        """the arrays share at least one value (only concrete runs need it said: an empty common grid is excluded)"""
        import z3
        from .filters import array_member
        x = self.core.wrap(z3.Real(self.core.fresh_name('shared')))
        for a in arrays:
            self.core.assume(array_member(a)(x))

    def quad(self, f, a, b):
        from . import functionals
        return functionals.quad(f, a, b)[0]

    def simps(self, y, x):
        from . import functionals
        return functionals.rule('simpson')(y, x=x)

    def spline(self, x, y, k=3, ext=0):
        from . import functionals
        return functionals.Spline(x, y, k=k, ext=ext)

    def spline2(self, x, y, z, kx=3, ky=3):
        from . import functionals
        return functionals.Grid2(x, y, z, kx=kx, ky=ky)

    def vector(self, n, f):
        from .arrays import SArr
        return SArr((n,), lambda i: f(i[0]), 'f')

    def div(self, a, b):
        return self.core.div_total(a, b)

    def frac(self, a, b=1):
        return Fraction(a, b)

    def len(self, x):
        from .instrument import pv_len
        return pv_len(x)

    def get(self, a, *idx):
        from .arrays import as_arr
        return as_arr(a).at(*idx)

    def map_item(self, m, p):
        """p-th (key, value) pair of a mapping, in iteration order"""
        if isinstance(m, dict):
            m = list(m.items())
            from .arrays import pick
            return pick(m, p)
        return m.items().item(p)

    def np(self):
        return self.u.shimtable['numpy']

    def asarray(self, x):
        from .arrays import as_arr
        return as_arr(x)

    def special(self):
        return self.u.shimtable["scipy.special"]

    def sqrt(self, x):
        return self.core.usqrt(x)

    def log10(self, x):
        return self.core.ulog10(x)

    def exp10(self, x):
        return self.core.uexp10(x)

    def exp(self, x):
        return self.core.uexp(x)

    def floordiv(self, a, b):
        return self.core.floordiv(a, b)

    def mod_(self, a, b):
        return self.core.mod(a, b)

    def abs(self, x):
        return abs(x)

    def is_native(self):
        return False

    def numpy_division(self):
        """the scalars divided by the code under contract are numpy scalars: dividing by zero raises nothing (the value is then
        left unspecified)"""
        self.core.S.numpy_division = True

    def shape_eq(self, a, shape):
        """a has exactly this shape"""
        from .arrays import as_arr
        a = as_arr(a)
        if a.ndim != len(shape):
            return False
        return self.and_(*[self.eq(x, y) for x, y in zip(a.shape, shape)])

    def member(self, E):
        """x -> x occurs in the increasing array E"""
        from .filters import array_member
        return array_member(E)

    def positions(self, E, l):
        """t -> position of l[t] in the increasing array E"""
        pos = E.props['posF']
        from .arrays import as_arr
        g = as_arr(l).getter()
        return lambda t: self.core.wrap(pos(self.core.rterm(g((t,)))))

    def ensure_common(self, name, l, arrays):
        """l is the increasing list of the values common to all the (increasing) arrays"""
        from .arrays import as_arr
        from .filters import array_member
        l = as_arr(l)
        g = l.getter()
        ms = [array_member(a) for a in arrays]
        self.forall(name + '.in-all', [l.shape[0]], lambda t: self.and_(*[m(g((t,))) for m in ms]))
        self.forall(name + '.increasing', [l.shape[0]], lambda t: self.implies(t + 1 < l.shape[0], g((t,)) < g((t + 1,))))
        ml = array_member(l)
        a0 = arrays[0].getter()
        self.forall(name + '.complete', [arrays[0].shape[0]],
                    lambda s: self.implies(self.and_(*[m(a0((s,))) for m in ms]), ml(a0((s,)))))

    def fresh_array_equal(self, name, a, b):
        from .arrays import as_arr
        a, b = as_arr(a), as_arr(b)
        self.ensure(name + '.shape', self.shape_eq(a, b.shape))
        ga, gb = a.getter(), b.getter()
        self.forall(name, list(b.shape), lambda *i: self.eq(ga(i), gb(i)))


class Refuted(Exception):
    def __init__(self, name, model, vc):
        super().__init__(name)
        self.name, self.model, self.vc = name, model, vc


# ============================================================================================== concrete context
class CC:
    sym = False

    def __init__(self, contract, rng, script=None, size=None):
        self.contract = contract
        self.rng = rng
        self.script = script or {}
        self.inputs = {}
        self.checked = 0
        self.patches = []
        self.size = size or 5

    def target(self, path):
        modname, _, attr = path.partition(':')
        try:
            o = script(modname) if modname.startswith('bin__') else importlib.import_module(modname)
            for a in attr.split('.') if attr else []:
                o = getattr(o, a)
            return o
        except (ImportError, AttributeError) as e:
            raise AnchorMissing(f"{path}: {e}")

    mod = target

    def patch(self, path, value):
        pass

    def stub(self, path, value):
        modname, _, attr = path.partition(':')
        o = self.target(modname)
        parts = attr.split('.')
        for a in parts[:-1]:
            o = getattr(o, a)
        if not hasattr(o, parts[-1]):
            raise AnchorMissing(path)
        self.patches.append((o, parts[-1], o.__dict__.get(parts[-1], getattr(o, parts[-1]))))
        setattr(o, parts[-1], value)

    def int(self, name, lo=None, hi=None, conc=None):
        if name in self.script:
            v = int(self.script[name])
        else:
            a, b = conc if conc else (lo if lo is not None else -3, hi if hi is not None else (lo or 0) + self.size)
            v = self.rng.randint(a, b)
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, conc=None, positive=False, nonzero=False):
        if name in self.script:
            v = float(self.script[name])
        else:
            a, b = conc if conc else (float(lo) if lo is not None else (0.01 if positive else -3.0),
                                      float(hi) if hi is not None else (float(lo) if lo is not None else 0) + 3.0)
            v = self.rng.uniform(a, b)
            if self.rng.random() < 0.25:
                w = float(round(v))
                if a <= w <= b and not (positive and w <= 0) and not (nonzero and w == 0):
                    v = w
        self.inputs[name] = v
        return v

    def bool(self, name):
        v = bool(self.script[name]) if name in self.script else self.rng.random() < 0.5
        self.inputs[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        k = int(self.script[name]) if name in self.script else self.rng.randrange(len(options))
        self.inputs[name] = k
        return options[k % len(options)]

    def array(self, name, shape, symmetric=False, positive=False, nonneg=False, increasing=False, integer=False, lo=None,
              hi=None, conc=None, gen=None, nonzero=False):
        import numpy as np
        shape = tuple(int(s) for s in shape)
        if name in self.script:
            v = np.array(self.script[name], dtype=int if integer else float).reshape(shape)
        else:
            r = np.random.RandomState(self.rng.randrange(2**31))
            a, b = conc if conc else (float(lo) if lo is not None else (0.05 if positive or nonneg else -2.0),
                                      float(hi) if hi is not None else (float(lo) if lo is not None else 0) + 2.0)
            if integer:
                v = r.randint(int(math.ceil(a)), int(b) + 2, size=shape)
            else:
                v = r.uniform(a, b, size=shape)
            if gen is not None:
                v = gen(r, shape)
            if symmetric:
                v = (v + np.swapaxes(v, -1, -2)) / 2
            if increasing:
                if integer:
                    k = int(a) + np.cumsum(r.randint(1, 4, size=shape))
                    v = k
                else:
                    v = np.sort(v)
        self.inputs[name] = v.copy()
        return v

    def fn(self, name, nargs=1, positive=False, gen=None):
        import numpy as np
        if name in self.script:
            co = [float(x) for x in self.script[name]]
        else:
            co = [self.rng.uniform(-1, 1) for _ in range(2 * nargs + 1)]
        self.inputs[name] = co

        def f(*xs):
            # a generic smooth function: exp of a polynomial when positive, polynomial otherwise
            r = co[0]
            for q, x in enumerate(xs):
                x = np.asarray(x, dtype=float)
                r = r + co[1 + 2 * q] * np.sin(1.3 * x + q) + co[2 + 2 * q] * x * (0.3 if positive else 1.0)
            if nargs > 1:
                r = r + 0.1 * np.asarray(xs[0], dtype=float) * np.asarray(xs[1], dtype=float)
            if positive:
                r = np.exp(0.2 * np.tanh(r) * 3)
            return r if np.ndim(r) else float(r)
        return f

    def lines_are_exact(self):
        pass

    def line_fit(self, xs, ys):
        n = len(xs)
        xm, ym = sum(xs) / n, sum(ys) / n
        s = sum((x - xm) * (y - ym) for x, y in zip(xs, ys)) / sum((x - xm) * (x - xm) for x in xs)
        return s, ym - s * xm

    def scratch_dir(self, stand_in=None):
        import contextlib
        import pathlib
        import tempfile

        @contextlib.contextmanager
        def cm():
            with tempfile.TemporaryDirectory(prefix='pyver') as d:
                yield pathlib.Path(d)
        return cm()

    def pd_matrix(self, name, labels):
        import numpy as np
        n = len(labels)
        r = np.random.RandomState(self.rng.randrange(2**31))
        a = r.uniform(-1, 1, size=(n, n))
        m = a @ a.T + np.diag(r.uniform(0.5, 2, size=n))
        v = {}
        for i, p in enumerate(labels):
            for j in range(i, n):
                k = f'{name}_{p}_{labels[j]}'
                x = float(self.script[k]) if k in self.script else float(m[i, j])
                self.inputs[k] = x
                m[i, j] = m[j, i] = x
                v[(p, labels[j])] = v[(labels[j], p)] = x
        if n and np.linalg.eigvalsh(m)[0] < 0.05:
            raise Skip()
        return v

    def inverse(self, v, labels):
        import numpy as np
        labels = sorted(labels)
        if not labels:
            return {}
        x = np.linalg.inv(np.array([[v[(a, b)] for b in labels] for a in labels], dtype=float))
        return {(a, b): x[i, j] for i, a in enumerate(labels) for j, b in enumerate(labels)}

    def require(self, cond):
        if not bool(cond):
            raise Skip()

    def ensure(self, name, cond):
        self.checked += 1
        import numpy as np
        ok = bool(np.all(cond)) if not isinstance(cond, bool) else cond
        if not ok:
            raise Failed(name, '')

    def cover(self):
        pass

    def forall(self, name, dims, fn):
        rs = []
        for d in dims:
            lo, hi = d if isinstance(d, tuple) else (0, d)
            rs.append(range(int(lo), int(hi)))
        tot = 1
        for r in rs:
            tot *= max(len(r), 0)
        it = itertools.product(*rs)
        if tot > 4000:
            it = ([r[self.rng.randrange(len(r))] for r in rs] for _ in range(4000))
        for ks in it:
            v = fn(*ks)
            if v is None:
                continue
            for q, vv in enumerate(v if isinstance(v, (list, tuple)) else [v]):
                self.checked += 1
                if not bool(vv):
                    raise Failed(name if not isinstance(v, (list, tuple)) else f"{name}.{q}", f"at index {tuple(ks)}")

    def forall_real(self, name, nvars, fn, cond=None):
        for _ in range(20):
            xs = [self.rng.uniform(-3, 3) for _ in range(nvars)]
            if cond is None or bool(cond(*xs)):
                self.ensure(name, fn(*xs))

    def raises(self, name, exc, thunk):
        self.checked += 1
        try:
            thunk()
        except exc:
            return
        raise Failed(name, f"no {exc} raised")

    def eq(self, a, b):
        import numpy as np
        if a is b:
            return True
        if isinstance(a, (str, bytes, type(None), bool, np.bool_)) or isinstance(b, (str, bytes, type(None), bool, np.bool_)):
            return a == b
        a, b = float(a), float(b)
        if a == b:
            return True
        if not (math.isfinite(a) and math.isfinite(b)):
            return (math.isnan(a) and math.isnan(b))
        return abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-9

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def sum(self, lo, hi, fn):
        return sum(fn(k) for k in range(int(lo), int(hi)))

    def quad(self, f, a, b):
        from scipy import integrate
        return integrate.quad(f, a, b)[0]

    def simps(self, y, x):
        from scipy import integrate
        return integrate.simps(y=y, x=x)

    def spline(self, x, y, k=3, ext=0):
        from scipy import interpolate
        return interpolate.InterpolatedUnivariateSpline(x, y, k=k, ext=ext)

    def spline2(self, x, y, z, kx=3, ky=3):
        from scipy import interpolate
        return interpolate.RectBivariateSpline(x, y, z, kx=kx, ky=ky)

    def vector(self, n, f):
        import numpy as np
        return np.array([f(i) for i in range(int(n))])

    def div(self, a, b):
        return a / b

    def frac(self, a, b=1):
        return a / b

    def len(self, x):
        return len(x)

    def get(self, a, *idx):
        import numpy as np
        a = np.asarray(a)
        if a.ndim != len(idx):
            raise Failed('shape', f"array has {a.ndim} axes, expected {len(idx)}")
        for i, n in zip(idx, a.shape):
            if not 0 <= i < n:
                raise Failed('shape', f"index {idx} outside shape {a.shape}")
        return a[tuple(int(i) for i in idx)]

    def map_item(self, m, p):
        return list(m.items())[int(p)]

    def special(self):
        import scipy.special
        return scipy.special

    def np(self):
        import numpy
        return numpy

    def asarray(self, x):
        import numpy as np
        return np.asarray(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def log10(self, x):
        return math.log10(x)

    def exp10(self, x):
        return 10.0 ** x

    def exp(self, x):
        return math.exp(x)

    def floordiv(self, a, b):
        return a // b

    def mod_(self, a, b):
        return a % b

    def abs(self, x):
        return abs(x)

    def is_native(self):
        return True

    def numpy_division(self):
        pass

    def shape_eq(self, a, shape):
        import numpy as np
        return tuple(np.shape(a)) == tuple(int(s) for s in shape)

    def member(self, E):
        import numpy as np
        s = set(np.asarray(E).tolist())
        return lambda x: x in s

    def positions(self, E, l):
        import numpy as np
        return lambda t: int(np.where(np.asarray(E) == l[t])[0][0])

    def require_common(self, arrays):
        import numpy as np
        s = set(np.asarray(arrays[0]).tolist())
        for a in arrays[1:]:
            s &= set(np.asarray(a).tolist())
        self.require(bool(s))

    def ensure_common(self, name, l, arrays):
        import numpy as np
        s = set(np.asarray(arrays[0]).tolist())
        for a in arrays[1:]:
            s &= set(np.asarray(a).tolist())
        self.ensure(name, list(np.asarray(l).tolist()) == sorted(s))

    def fresh_array_equal(self, name, a, b):
        import numpy as np
        self.ensure(name + '.shape', np.shape(a) == np.shape(b))
        self.ensure(name, np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-7, atol=1e-9))


# ============================================================================================== runners
def run_symbolic(contract, budget):
    """-> dict(status, obligations[...], paths, ...)"""
    from . import core, sums as sums_mod
    from .instrument import Universe
    S = core.S
    t0 = time.time()
    res = dict(contract=contract.name, obligations={}, paths=0, covered=0, status='proved', reason=None, model=None,
               failed=None, solver_time=0.0, queries=0)
    S.deadline = t0 + budget
    try:
        univ = Universe()
    except Exception as e:
        res.update(status='undecided', reason=f"loading: {type(e).__name__}: {e}")
        return res
    d = core.Decider()
    st_time, queries = 0.0, 0
    while True:
        # fresh path state
        dl = S.deadline
        S.reset_all()
        S.deadline = dl
        S.inverses, S.spaces, S.sets, S.occ, S.foralls, S.inverses_of, S.loop_born, S.spacefilters = [], [], [], [], [], [], set(), []
        S.small_inverses = []
        S.isinfilters = []
        S.deciders = [d]
        core._known_cache.clear()
        core._appcache.clear()
        sums_mod._names_cache.clear()
        d.begin()
        vc = VC(univ, contract, d)
        vc.patches = []
        out = None
        try:
            contract.fn(vc)
            out = 'ok'
        except core.PathEnd:
            out = 'infeasible'
        except core.Unsupported as e:
            res.update(status='undecided', reason=str(e), trace=short_tb())
            out = 'undecided'
        except AnchorMissing as e:
            res.update(status='undecided', reason=f"anchor missing: {e}")
            out = 'undecided'
        except Refuted as e:
            res.update(status='refuted', failed=e.name, model=concretize_model(e.model, vc), reason='counterexample',
                       weak=S.weak or abstract_names(S.refuted_names, vc))
            out = 'refuted'
        except RecursionError as e:
            res.update(status='undecided', reason='recursion limit', trace=traceback.format_exc().splitlines()[:12] + traceback.format_exc().splitlines()[-60:])
            out = 'undecided'
        except Exception as e:
            # the real code raised on this path: is the path feasible?
            import z3
            from . import sums
            if _internal(e) or stand_in(e):
                res.update(status='undecided', reason=f"engine: {type(e).__name__}: {e}", trace=short_tb())
                out = 'undecided'
            else:
                ctx = core.context()
                r, m = core._solve(ctx + sums.prepare(ctx, light=True), 5000, want_model=True)
                nm = f"no-exception({type(e).__name__})"
                if r == z3.unsat:
                    out = 'infeasible'
                elif r == z3.sat:
                    res.update(status='refuted', failed=nm, model=concretize_model(m, vc),
                               reason=f"{type(e).__name__}: {e}", trace=short_tb(),
                               weak=S.weak or not isinstance(e, (IndexError, KeyError, ValueError)))
                    out = 'refuted'
                else:
                    res.update(status='undecided', reason=f"exception path of unknown feasibility {e}", trace=short_tb())
                    out = 'undecided'
        for o, a, v in reversed(vc.patches):
            setattr(o, a, v)
        st_time += S.solver_time
        queries += S.queries
        if out != 'infeasible':
            res['paths'] += 1
            if vc.covered is True:
                res['covered'] += 1
            for n, st, det in vc.obl:
                key = n
                res['obligations'].setdefault(key, [0, 0])
                res['obligations'][key][0] += 1
                res['obligations'][key][1] += (st == 'proved')
        if out in ('undecided', 'refuted'):
            break
        if not d.advance():
            break
        if res['paths'] > 4000:
            res.update(status='undecided', reason='too many paths')
            break
    res['solver_time'], res['queries'] = st_time, queries
    res['wall'] = time.time() - t0
    if res['status'] == 'proved' and (not res['obligations'] or res['covered'] == 0):
        res.update(status='undecided', reason='vacuous: no obligation reached on a satisfiable path')
    return res


def abstract_names(names, vc):
    """symbols of the refuted query that stand for abstractions (sums, selections, havocked state, transcendental functions):
    a counter-model over those need not correspond to a real execution"""
    own = set()
    for n, rec in vc.inputs.items():
        own.update((n, n + '_pos'))
    return sorted(n for n in names if n not in own and not n.startswith('?'))


def stand_in(e):
    """the exception comes from a stand-in or from a shim lacking a feature, not from the code"""
    if isinstance(e, TypeError) and ('keyword argument' in str(e) or 'positional argument' in str(e) or 'required argument' in str(e)):
        return True
    return isinstance(e, AttributeError)


def result_lacks(e):
    """the exception is raised where a contract reads what the code returned, stored or wrote - no code of the repository is running -
    and says that this is not there: None instead of a value, an entry, an element or a file missing.  (Anything else a contract stumbles
    over, such as a renamed attribute, stays a failure of the contract.)"""
    tb = e.__traceback__
    while tb is not None:
        if str(tb.tb_frame.f_globals.get('__name__')).startswith(('seyfert', 'bin__')):
            return False
        tb = tb.tb_next
    if isinstance(e, (TypeError, AttributeError)):
        return 'NoneType' in str(e)
    return isinstance(e, (KeyError, IndexError, ValueError, FileNotFoundError))


def _internal(e):
    """exception whose innermost frame is engine code that is not one of the modelled numpy errors"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    f = last.tb_frame.f_code.co_filename
    if '/pyver/' in f or '/contracts/' in f or 'z3' in f:
        # modelled exceptions are raised explicitly by the shims
        return not isinstance(e, (IndexError, ValueError, ZeroDivisionError, KeyError)) or 'z3' in f or '/contracts/' in f
    return False


def short_tb():
    tb = traceback.format_exc().strip().splitlines()
    return tb[-14:]


def concretize_model(model, vc):
    """values of the contract inputs in the solver model (small arrays only)"""
    import z3
    if model is None:
        return None
    out = {}

    def val(t):
        v = model.eval(t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None
    try:
        for n, rec in vc.inputs.items():
            if rec[0] in ('int', 'real', 'bool'):
                out[n] = val(rec[1])
            elif rec[0] == 'choice':
                out[n] = rec[1]
            elif rec[0] == 'array':
                _, f, shape, symm, inc = rec
                dims = [val(vc.core.term(s)) for s in shape]
                if any(d is None or d < 0 for d in dims) or math.prod(dims) > 20000:
                    return None
                import numpy as np
                a = np.zeros(dims)
                for idx in itertools.product(*[range(d) for d in dims]):
                    i = list(idx)
                    if symm and i[-2] > i[-1]:
                        i[-2], i[-1] = i[-1], i[-2]
                    a[idx] = val(f(*i))
                if inc and a.size > 1 and not np.all(np.diff(a) > 0):
                    # the model only constrains the elements in use: complete it to an increasing array if possible
                    return None
                out[n] = a.tolist()
            elif rec[0] == 'fn':
                return None
    except Exception:
        return None
    return out


def run_concrete(contract, seed, trials, budget, script=None, size=None):
    """-> dict(status 'ok'|'failed'|'skip', ...)"""
    t0 = time.time()
    n_ok = n_skip = checks = 0
    res = dict(contract=contract.name, status='ok', trials=0, skipped=0, checks=0)
    for t in range(trials if script is None else 1):
        rng = random.Random(f"{seed}-{contract.prop}-{contract.name}-{t}")
        cc = CC(contract, rng, script, size=(1 + t % 6) if size is None else size)
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                contract.fn(cc)
            n_ok += 1
        except Skip:
            n_skip += 1
        except AnchorMissing as e:
            res.update(status='anchor', reason=str(e))
            break
        except Failed as e:
            res.update(status='failed', failed=e.name, detail=e.detail, inputs=jsonable(cc.inputs), trial=t, seed=seed)
            break
        except Exception as e:
            if script is None or True:
                res.update(status='failed', failed=f"no-exception({type(e).__name__})", detail=f"{e}",
                           inputs=jsonable(cc.inputs), trial=t, seed=seed, trace=short_tb())
                tb = e.__traceback__
                last = None
                while tb is not None:
                    last = tb
                    tb = tb.tb_next
                if '/pyver/' in last.tb_frame.f_code.co_filename or '/contracts/' in last.tb_frame.f_code.co_filename:
                    res['status'] = 'harness-error'
                if stand_in(e):
                    res['status'] = 'harness-error'
                if result_lacks(e):
                    # the contract could not read what the code was to deliver: the value is absent, not another one
                    res['status'] = 'failed'
            break
        finally:
            for o, a, v in reversed(cc.patches):
                setattr(o, a, v)
            checks += cc.checked
        if time.time() - t0 > budget:
            break
    res.update(trials=n_ok, skipped=n_skip, checks=checks, wall=time.time() - t0)
    return res


def jsonable(d):
    import numpy as np
    out = {}
    for k, v in d.items():
        if isinstance(v, np.ndarray):
            out[k] = v.tolist()
        elif isinstance(v, (np.integer, np.floating, np.bool_)):
            out[k] = v.item()
        else:
            out[k] = v
    return out
