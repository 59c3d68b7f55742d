"""Mechanical extraction: every run reads the current text of /repo/seyfert, rewrites it with the rules below and executes
it with symbolic inputs.  The rewrite keeps every statement of the program; it
  * hands loop heads, comprehensions and container constructors to the verifier (so symbolic ranges get an inductive
    summary instead of being unrolled),
  * turns float literals into exact rationals and '/' and '**' into exact operations,
  * replaces calls of the builtins len/range/int/... by versions that accept symbolic values.
It drops: annotations, docstrings, decorators of numba, logging / print / warnings calls and the text of exception messages.
"""
import ast
import builtins as _bi
import os
import sys
import types
import itertools
import numbers
from fractions import Fraction
import z3
from . import core
from .core import S, SNum, SBool, is_sym, term, bterm, rterm, wrap, Unsupported, Decider, PathEnd, known, fork, ite
from . import seqs, arrays
from .arrays import SArr, Layer

REPO = os.environ.get('PYVER_REPO', '/repo')
ROOT_PKG = 'seyfert'

LOGGERS = {'logger', 'logging', 'warnings', 'log'}
CTORS = {'int', 'float', 'str', 'list', 'tuple', 'set', 'dict', 'bool', 'frozenset', 'type', 'complex'}


class _Names(ast.NodeVisitor):
    """names bound in a block (not descending into nested function scopes)"""

    def __init__(self):
        self.names = []
        self.appended = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        pass

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' \
                and isinstance(c.func.value, ast.Name):
            if c.func.value.id not in self.appended:
                self.appended.append(c.func.value.id)
        self.generic_visit(n)


def bound_names(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return v


def N(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def call(f, *args):
    return ast.Call(func=N(f), args=list(args), keywords=[])


class Transformer(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.n = 0
        self.loopstack = []
        self.fn_locals = [set()]
        self.in_raise = 0

    def uid(self):
        self.n += 1
        return self.n

    # ---- constants / operators
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(call('_pv_lit', ast.Constant(repr(n.value))), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(call('_pv_div', n.left, n.right), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(call('_pv_pow', n.left, n.right), n)
        if isinstance(n.op, ast.Mult) and (isinstance(n.left, ast.List) or isinstance(n.right, ast.List)):
            return ast.copy_location(call('_pv_lmul', n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.op, ast.Div):
            self.generic_visit(n)
            return ast.copy_location(ast.Assign(targets=[N(n.target.id, ast.Store())],
                                                value=call('_pv_idiv', N(n.target.id), n.value)), n)
        if isinstance(n.target, ast.Subscript):
            # a[k] op= v   ->  __pv_augitem(a, k, v, op)
            self.generic_visit(n)
            op = type(n.op).__name__
            return ast.copy_location(ast.Expr(call('_pv_augitem', n.target.value, self._idx(n.target.slice), n.value,
                                                   ast.Constant(op))), n)
        if isinstance(n.target, ast.Attribute):
            self.generic_visit(n)
            op = type(n.op).__name__
            return ast.copy_location(ast.Expr(call('_pv_augattr', n.target.value, ast.Constant(n.target.attr), n.value,
                                                   ast.Constant(op))), n)
        self.generic_visit(n)
        return n

    def _idx(self, s):
        if isinstance(s, ast.Slice):
            return call('slice', s.lower or ast.Constant(None), s.upper or ast.Constant(None), s.step or ast.Constant(None))
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._idx(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(call('_pv_setitem', t.value, self._idx(t.slice), n.value)), n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(call('_pv_setattr', t.value, ast.Constant(t.attr), n.value)), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = call('_pv_in', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, n)
        return n

    # ---- functions
    def _function(self, n):
        n.returns = None
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            x.annotation = None
        bn = bound_names(n.body)
        loc = set(bn.names) | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for st in ast.walk(n):
            if isinstance(st, (ast.Global, ast.Nonlocal)):
                loc -= set(st.names)
        self.fn_locals.append(loc)
        saved, self.loopstack = self.loopstack, []
        self.generic_visit(n)
        self.loopstack = saved
        self.fn_locals.pop()
        return n

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_AnnAssign(self, n):
        if n.value is not None:
            if isinstance(n.target, ast.Name):
                n.value = self.visit(n.value)
                n.annotation = ast.Constant('ann')
                return n
            new = ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)
            return self.visit_Assign(new)
        n.annotation = ast.Constant('ann')
        return n

    # ---- statements dropped
    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Call):
            f = v.func
            if isinstance(f, ast.Attribute):
                b = f.value
                if isinstance(b, ast.Name) and b.id in LOGGERS:
                    return ast.copy_location(ast.Pass(), n)
                if isinstance(b, ast.Attribute) and b.attr in LOGGERS:
                    return ast.copy_location(ast.Pass(), n)
                if f.attr == 'append' and isinstance(b, ast.Name) and b.id in self.fn_locals[-1] and len(v.args) == 1:
                    arg = self.visit(v.args[0])
                    return ast.copy_location(ast.Assign(targets=[N(b.id, ast.Store())],
                                                        value=call('_pv_append', N(b.id), arg)), n)
            if isinstance(f, ast.Name) and f.id == 'print':
                return ast.copy_location(ast.Pass(), n)
        self.generic_visit(n)
        return n

    def visit_Raise(self, n):
        # keep the exception class, drop the message
        if n.exc is not None and isinstance(n.exc, ast.Call):
            n.exc = ast.copy_location(call('_pv_exc', self.visit(n.exc.func)), n.exc)
        elif n.exc is not None:
            n.exc = self.visit(n.exc)
        n.cause = None
        return n

    def visit_Assert(self, n):
        n.msg = None
        self.generic_visit(n)
        return n

    # ---- calls
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in CTORS and n.func.id not in self.fn_locals[-1]:
            if n.func.id == 'type' and len(n.args) != 1:
                return n
            n.func = ast.copy_location(N('_pv_' + n.func.id), n.func)
        return n

    # ---- comprehensions
    def _comp(self, n, kind):
        g0 = n.generators[0]
        it = self.visit(g0.iter)
        for g in n.generators[1:]:
            g.iter = call('_pv_native', self.visit(g.iter))
        for g in n.generators:
            g.ifs = [self.visit(c) for c in g.ifs]
        if kind == 'dict':
            n.key, n.value = self.visit(n.key), self.visit(n.value)
        else:
            n.elt = self.visit(n.elt)
        g0.iter = N('_pv_arg')
        if kind == 'dict':
            body = ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        else:
            body = ast.ListComp(elt=n.elt, generators=n.generators)
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg('_pv_arg')], kwonlyargs=[], kw_defaults=[],
                                            defaults=[]), body=body)
        nm = 'for'
        return ast.copy_location(call('_pv_comp', ast.Constant(kind), lam, it, ast.Constant(len(n.generators))), n)

    def visit_ListComp(self, n):
        return self._comp(n, 'list')

    def visit_SetComp(self, n):
        return self._comp(n, 'set')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen')

    def visit_DictComp(self, n):
        return self._comp(n, 'dict')

    # ---- loops
    def visit_For(self, n):
        u = self.uid()
        st = f'_pv_st{u}'
        bn = bound_names(n.body)
        tn = bound_names([ast.Assign(targets=[n.target], value=ast.Constant(None))]).names
        names = [x for x in bn.names if x not in tn]
        for x in bn.appended:
            if x not in names and x in self.fn_locals[-1]:
                names.append(x)
        appended = [x for x in bn.appended if x in self.fn_locals[-1]]
        it = self.visit(n.iter)
        target = self.visit(n.target)
        self.loopstack.append(st)
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.loopstack.pop()
        orelse = []
        for s in n.orelse:
            r = self.visit(s)
            orelse.extend(r if isinstance(r, list) else [r])
        loc = ast.Call(func=N('locals'), args=[], keywords=[])
        pre = ast.Assign(targets=[N(st, ast.Store())],
                         value=call('_pv_loop', it, ast.Constant(f'{self.fname}:{n.lineno}'),
                                    ast.Constant(tuple(names)), ast.Constant(tuple(appended))))
        symtest = ast.Attribute(value=N(st), attr='sym', ctx=ast.Load())

        def meth(m, *a):
            return ast.Call(func=ast.Attribute(value=N(st), attr=m, ctx=ast.Load()), args=list(a), keywords=[])
        tup = ast.Tuple(elts=[N(x, ast.Store()) for x in names], ctx=ast.Store())
        enter = ast.If(test=symtest, body=[ast.Assign(targets=[tup], value=meth('enter', loc))
                                           if names else ast.Expr(meth('enter', loc))], orelse=[])
        leave = ast.If(test=symtest, body=[ast.Expr(meth('leave', loc))], orelse=[])
        new = ast.For(target=target, iter=N(st), body=[enter] + body + [leave], orelse=orelse)
        before = ast.If(test=symtest, body=[ast.Expr(meth('entry', loc))], orelse=[])
        after = []
        if names:
            tup2 = ast.Tuple(elts=[N(x, ast.Store()) for x in names], ctx=ast.Store())
            after = [ast.If(test=symtest, body=[ast.Assign(targets=[tup2], value=meth('result', loc))], orelse=[])]
        else:
            after = [ast.If(test=symtest, body=[ast.Expr(meth('result', loc))], orelse=[])]
        return [ast.copy_location(x, n) for x in [pre, before, new] + after]

    def visit_While(self, n):
        self.loopstack.append(None)
        self.generic_visit(n)
        self.loopstack.pop()
        return n

    def visit_Continue(self, n):
        st = self.loopstack[-1] if self.loopstack else None
        if st is None:
            return n
        symtest = ast.Attribute(value=N(st), attr='sym', ctx=ast.Load())
        lv = ast.Call(func=ast.Attribute(value=N(st), attr='leave', ctx=ast.Load()),
                      args=[ast.Call(func=N('locals'), args=[], keywords=[])], keywords=[])
        return [ast.copy_location(ast.If(test=symtest, body=[ast.Expr(lv)], orelse=[]), n), n]

    def visit_Break(self, n):
        st = self.loopstack[-1] if self.loopstack else None
        if st is None:
            return n
        return [ast.copy_location(ast.Expr(ast.Call(func=ast.Attribute(value=N(st), attr='brk', ctx=ast.Load()), args=[],
                                                    keywords=[])), n), n]

    def visit_Return(self, n):
        self.generic_visit(n)
        out = []
        for st in self.loopstack:
            if st is not None:
                out.append(ast.copy_location(
                    ast.Expr(ast.Call(func=ast.Attribute(value=N(st), attr='brk', ctx=ast.Load()), args=[], keywords=[])), n))
        return out + [n] if out else n


# ------------------------------------------------------------------------------------------------ loop runtime
class _Undef:
    def __repr__(self):
        return "<undefined after symbolic loop>"

    def _bad(self, *a, **k):
        raise Unsupported("value carried out of / into a symbolic loop iteration is not tracked")
    __add__ = __radd__ = __sub__ = __mul__ = __getitem__ = __call__ = __bool__ = __iter__ = __lt__ = __eq__ = _bad
    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        self._bad()


UNDEF = _Undef()


class ListAcc:
    """a list that is being appended to inside a symbolic loop (write-only there)"""

    def __init__(self, entry):
        self.entry = entry
        self.items = []

    def __getattr__(self, n):
        raise Unsupported("list under construction used inside a symbolic loop")


class HArr(SArr):
    pass


def has_any(t, syms):
    if not syms:
        return False
    ids = {s.decl().name() if z3.is_app(s) else s.name() for s in syms}
    for e in core.subterms([t]):
        if z3.is_app(e) and e.decl().name() in ids:
            return True
    # also look inside sum definitions
    from . import sums
    for e in sums.sum_apps([t]):
        d = S.sum_registry[e.decl().name()]
        for x in core.subterms([d.body, d.lo, d.hi]):
            if z3.is_app(x) and x.decl().name() in ids:
                return True
    return False


class NestLoop:
    """a loop over seqs.Nest run as the nested loops it stands for"""
    sym = True

    def __init__(self, it, where, names, appended):
        self.it, self.args, self.names = it, (where, names, appended), names

    def entry(self, loc):
        self.vals = {x: loc.get(x, UNDEF) for x in self.names}

    def enter(self, loc):
        return tuple(self.vals[x] for x in self.names) if self.names else None

    def leave(self, loc):
        self.vals = {x: loc.get(x, UNDEF) for x in self.names}

    def result(self, loc):
        return self.enter(loc)

    def brk(self):
        raise Unsupported("break / return inside a symbolic loop")

    def __iter__(self):
        return self.level(0, ())

    def level(self, d, pos):
        if d == len(self.it.levels):
            yield self.it.pair(*pos)
            return
        lp = Loop(self.it.levels[d](*pos), *self.args)
        if not lp.sym:
            for x in lp:
                yield from self.level(d + 1, pos + (x,))
            return
        lp.entry(self.vals)
        for x in lp:
            v = lp.enter(None)
            if self.names:
                self.vals = dict(zip(self.names, v))
            yield from self.level(d + 1, pos + (x,))
            lp.leave(self.vals)
        v = lp.result(None)
        if self.names:
            self.vals = dict(zip(self.names, v))


def make_loop(it, where, names, appended):
    return (NestLoop if isinstance(it, seqs.Nest) else Loop)(it, where, names, appended)


def same_place(layers):
    def key(L):
        return tuple(tuple(str(z3.simplify(term(y))) if is_sym(y) else repr(y) for y in sp) for sp in L.spec)
    return all(not L.vars and not L.conds for L in layers) and len({key(L) for L in layers}) == 1


class Loop:
    def __init__(self, it, where, names, appended):
        self.where = where
        self.names = names
        self.appended = set(appended)
        self.seq = seqs.symbolic_iterable(it)
        self.sym = self.seq is not None
        self.it = it
        self.broken = False

    def __iter__(self):
        if not self.sym:
            return iter(seqs.native_list(self.it) if isinstance(self.it, seqs.Seq) else self.it)
        return self.run()

    def brk(self):
        if self.sym:
            raise Unsupported("break / return inside a symbolic loop")

    # names at loop entry
    def entry(self, loc):
        self.entry_vals = {x: loc.get(x, UNDEF) for x in self.names}

    def note_read(self, buf):
        self.reads[buf.id] = buf

    def note_write(self, buf):
        if buf.id not in self.base_layers:
            self.base_layers[buf.id] = (buf, buf.layers)
        self.writes[buf.id] = buf

    def current(self, x):
        """value of carried name x at the start of the generic iteration"""
        v = self.entry_vals[x]
        if x in self.appended and isinstance(v, (list, seqs.Seq)):
            return ListAcc(v)
        if x in self.inv:
            return self.inv[x](self.k)
        if x in self.plain:
            return UNDEF if v is UNDEF else UNDEF
        if x in self.unchanged:
            return v
        if isinstance(v, SNum) or (core._num(v) and not isinstance(v, bool)):
            if x not in self.H:
                isint = v.is_int if isinstance(v, SNum) else isinstance(v, int)
                # an int accumulator may turn real: havoc as real when the discovery says so
                srt = 'real' if x in self.force_real else ('int' if isint else 'real')
                self.H[x] = core.fresh_int('H' + x) if srt == 'int' else core.fresh_real('H' + x)
            return self.H[x]
        if isinstance(v, SArr):
            if x not in self.HA:
                f = z3.Function(core.fresh_name('HA' + x), *([core.I] * v.ndim + [core.R]))
                self.HA[x] = (f, SArr(v.shape, lambda idx: wrap(f(*[term(i) for i in idx])), v.dtype.kind))
            return self.HA[x][1]
        return v

    def enter(self, loc):
        vals = [self.current(x) for x in self.names]
        self.start = dict(zip(self.names, vals))
        return tuple(vals) if self.names else None

    def leave(self, loc):
        self.left = True
        self.rec = {x: loc.get(x, UNDEF) for x in self.names}

    def run(self):
        n = self.seq.n
        self.n = n
        self.skip = False
        self.records = []
        self.inv, self.plain, self.unchanged = {}, set(), set()
        self.H, self.HA, self.force_real = {}, {}, set()
        self.havoc_bufs = {}
        self.accum_done = {}
        if known(term(n) <= 0):
            self.skip = True
            return
        self.k = core.bvar('?l')
        kc = [SBool(self.k.t >= 0), SBool(self.k.t < term(n))]
        for npass in range(6):
            self.records = []
            self.reads, self.writes, self.base_layers = {}, {}, {}
            d = Decider()
            pcbase = len(S.pc)
            S.pc.extend(c.t for c in kc)
            base2 = len(S.pc)
            S.loops.append(self)
            S.loop_depth += 1
            S.deciders.append(d)
            saved = {}
            for bid, (buf, f) in self.havoc_bufs.items():
                self.base_layers[bid] = (buf, buf.layers)
                saved[bid] = (buf.fn, buf.layers)
                buf.fn = (lambda f: lambda idx: wrap(f(*[term(i) for i in idx])))(f)
                buf.layers = ()
            while True:
                d.begin()
                self.left = False
                yield self.seq.item(self.k)
                if not self.left:
                    raise Unsupported("loop body left abnormally")
                new = {}
                for bid, buf in self.writes.items():
                    if bid in self.havoc_bufs:
                        added = buf.layers
                        buf.layers = ()
                    else:
                        b0 = self.base_layers[bid][1]
                        added = buf.layers[len(b0):]
                        buf.layers = b0
                    if added:
                        new[bid] = added
                self.records.append((S.pc[base2:], self.rec, new, dict(self.start)))
                if len(self.records) > core.MAX_LOCAL_PATHS:
                    raise Unsupported("too many paths in loop body")
                if not d.advance():
                    break
                del S.pc[base2:]
            S.deciders.pop()
            S.loops.pop()
            S.loop_depth -= 1
            del S.pc[pcbase:]
            for bid, (buf, f) in self.havoc_bufs.items():
                buf.fn, buf.layers = saved[bid]
            if self.analyze():
                return
        raise Unsupported("loop invariant inference did not converge")

    # ------------------------------------------------------------------ invariant inference
    def all_H(self):
        hs = [h.t for x, h in self.H.items() if x not in self.inv]
        hs += [f for x, (f, a) in self.HA.items() if x not in self.inv]
        return hs

    def analyze(self):
        again = False
        Hs = self.all_H()
        self.after = {}
        for x in self.names:
            vals = [(c, r[x]) for c, r, nw, st in self.records]
            v0 = self.entry_vals[x]
            if any(isinstance(v, ListAcc) for c, v in vals):
                self.after[x] = ('list', vals)
                continue
            if all(v is st[x] for (c, v), (_, _, _, st) in zip(vals, self.records)) and x not in self.inv:
                self.unchanged.add(x)
                self.after[x] = ('same',)
                if x in self.H or x in self.HA:
                    # was havocked needlessly: its value is the entry value
                    if self.used(x):
                        again = True
                    self.H.pop(x, None)
                    self.HA.pop(x, None)
                continue
            if x in self.inv:
                self.after[x] = ('inv',)
                continue
            if all(is_sym(v) or (core._num(v) and not isinstance(v, bool)) for c, v in vals):
                mv = core.merge_values(vals)
                if x in self.H:
                    h = self.H[x]
                    if h.is_int and isinstance(mv, (Fraction, float)) or (is_sym(mv) and h.is_int and not mv.is_int if isinstance(mv, SNum) else False):
                        self.force_real.add(x)
                        self.H.pop(x)
                        again = True
                        self.after[x] = ('pending',)
                        continue
                    from . import sums
                    dlt = z3.simplify(term(mv) - h.t, som=True)
                    if has_any(dlt, [h.t]):
                        try:
                            dlt = sums.from_poly(sums._padd(sums.poly(rterm(mv)), sums.poly(rterm(h)), -1))
                        except sums.Blowup:
                            pass
                    if not has_any(dlt, Hs):
                        isint = h.is_int
                        self.inv[x] = self.sum_invariant(v0, dlt, isint)
                        self.after[x] = ('inv',)
                        again = True
                        continue
                    if not has_any(term(mv), Hs):
                        self.after[x] = ('last', mv)
                        if self.used(x):
                            raise Unsupported(f"loop-carried variable {x}")
                        continue
                    self.after[x] = ('bad',)
                    if has_any(term(mv), [h.t]):
                        self.pending_bad(x)
                    continue
                self.after[x] = ('last', mv) if not has_any(term(mv), Hs) else ('bad',)
                continue
            if all(isinstance(v, SArr) for c, v in vals) and x in self.HA:
                f, arr = self.HA[x]
                qs = [core.bvar('?q') for _ in arr.shape]
                mv = core.merge_values([(c, v.getter()(tuple(qs))) for c, v in vals])
                from . import sums
                h = f(*[q.t for q in qs])
                try:
                    dlt = sums.from_poly(sums._padd(sums.poly(rterm(mv)), sums.poly(h), -1))
                except sums.Blowup:
                    raise Unsupported("array accumulator too large")
                if not has_any(dlt, Hs):
                    self.inv[x] = self.arr_invariant(v0, arr, qs, dlt)
                    self.after[x] = ('inv',)
                    again = True
                    continue
                if not has_any(rterm(mv), Hs):
                    self.after[x] = ('bad',)
                    continue
                raise Unsupported(f"loop-carried array {x}")
            self.after[x] = ('bad',)
        # buffers both read and written
        if not again:
            for bid, buf in self.writes.items():
                if bid in self.reads and bid not in self.havoc_bufs:
                    f = z3.Function(core.fresh_name('HB'), *([core.I] * len(buf.shape) + [core.R]))
                    self.havoc_bufs[bid] = (buf, f)
                    again = True
        return not again

    def pending_bad(self, x):
        raise Unsupported(f"no inductive summary for loop variable {x} at {self.where}")

    def used(self, x):
        """does the havoc symbol of x occur in any recorded effect?"""
        syms = []
        if x in self.H:
            syms.append(self.H[x].t)
        if x in self.HA:
            syms.append(self.HA[x][0])
        if not syms:
            return False
        for c, r, nw, st in self.records:
            for cc in c:
                if has_any(cc, syms):
                    return True
            for y, v in r.items():
                if y != x and is_sym(v) and has_any(v.t, syms):
                    return True
            for layers in nw.values():
                for L in layers:
                    if self.layer_has(L, syms):
                        return True
        return False

    def layer_has(self, L, syms):
        for sp in L.spec:
            if sp[0] == 'pt' and is_sym(sp[1]) and has_any(sp[1].t, syms):
                return True
        free = [core.bvar('?q') for sp in L.spec if sp[0] != 'pt']
        v = core.merged(lambda: L.val(free))
        return is_sym(v) and has_any(v.t, syms)

    def sum_invariant(self, v0, dlt, isint):
        from . import sums
        kt = self.k.t

        def inv(k):
            d = z3.simplify(dlt, som=True)
            if not sums.depends(d, kt):
                if isint:
                    return v0 + wrap(d) * k
                return v0 + wrap(rterm(wrap(d))) * wrap(rterm(k))
            kk = core.bvar('?k')
            r = sums.sum_of_body(kk.t, 0, k, wrap(z3.substitute(dlt, (kt, kk.t))))
            if isint and is_sym(r) and not r.is_int:
                r = wrap(z3.ToInt(r.t))
            return v0 + r
        return inv

    def arr_invariant(self, v0, arr, qs, dlt):
        from . import sums
        kt = self.k.t
        g0 = arrays.as_arr(v0).getter()

        def inv(k):
            def el(idx):
                sub = [(q.t, term(i)) for q, i in zip(qs, idx)]
                kk = core.bvar('?k')
                body = z3.substitute(dlt, (kt, kk.t), *sub)
                return g0(idx) + sums.sum_of_body(kk.t, 0, k, wrap(body))
            return SArr(arr.shape, el, 'f')
        return inv

    # ------------------------------------------------------------------ after the loop
    def result(self, loc):
        if self.skip:
            return tuple(self.entry_vals[x] for x in self.names)
        n = self.n
        # array effects
        group = object()
        for bid in self.writes:
            buf = self.writes[bid]
            recs = [(c, nw.get(bid, ())) for c, r, nw, st in self.records]
            if bid in self.havoc_bufs:
                f = self.havoc_bufs[bid][1]
                if self.accumulate(buf, f, recs):
                    continue
            layers = []
            for c, added in recs:
                prev = None
                order = -1
                for L in added:
                    if L.group is None or L.group is not prev:
                        order += 1
                    prev = L.group
                    M = Layer(L.spec, L.val, [(self.k.t, z3.IntVal(0), term(n))] + L.vars, list(c) + L.conds,
                              [0, order] + (L.time[1:] if L.time else []))
                    M.group = group
                    layers.append(M)
            for lp in S.loops:
                if lp not in buf.loop_token:
                    lp.note_write(buf)
            buf.layers = buf.layers + tuple(layers)
        out = []
        for x in self.names:
            a = self.after[x]
            v0 = self.entry_vals[x]
            if a[0] == 'same':
                out.append(v0)
            elif a[0] == 'inv':
                out.append(self.inv[x](n))
            elif a[0] == 'last':
                lastv = arrays.subst_scalar(a[1], [(self.k.t, term(n) - 1)])
                if known(term(n) > 0):
                    out.append(lastv)
                elif v0 is UNDEF or not (is_sym(v0) or core._num(v0)):
                    out.append(UNDEF)
                else:
                    out.append(ite(wrap(term(n) > 0), lastv, v0))
            elif a[0] == 'list':
                out.append(self.list_result(x, a[1]))
            else:
                out.append(UNDEF)
        return tuple(out) if self.names else None

    def list_result(self, x, vals):
        cnt = {len(v.items) for c, v in vals}
        if cnt != {1}:
            raise Unsupported("number of appended items varies between iterations")
        entry = self.entry_vals[x]
        kt = self.k.t
        n = self.n

        def item(k):
            sub = [(kt, term(k))]
            opts = [([z3.substitute(cc, *sub) for cc in c], subst_value(v.items[0], sub)) for c, v in vals]
            return core.merge_values(opts)
        tail = seqs.Seq(n, item)
        if isinstance(entry, list) and not entry:
            return tail
        return seqs.as_seq(entry) + tail

    def accumulate(self, buf, f, recs):
        """writes of the form  A[e] = A[e] + delta"""
        from . import sums
        items = []
        anyH = False
        # writes to one and the same place: the last one (which reads the earlier ones) stands for all
        recs = [(c, added[-1:] if len(added) > 1 and same_place(added) else added) for c, added in recs]
        for c, added in recs:
            for L in added:
                free = [core.bvar('?q') for sp in L.spec if sp[0] != 'pt']
                v = core.merged(lambda: L.val(free))
                if is_sym(v) and has_any(v.t, [f]):
                    anyH = True
                items.append((c, L, free, v))
        if not anyH:
            return False
        if any(len(added) > 1 for c, added in recs):
            raise Unsupported("several accumulating writes per iteration")
        base = buf.getter()
        kt = self.k.t
        n = self.n
        deltas = []
        for c, L, free, v in items:
            fi = iter(free)
            full = [sp[1] if sp[0] == 'pt' else (next(fi) + sp[1] if sp[0] == 'free' else next(fi)) for sp in L.spec]
            h = f(*[term(i) for i in full])
            try:
                d = sums.from_poly(sums._padd(sums.poly(rterm(v)), sums.poly(h), -1))
            except sums.Blowup:
                raise Unsupported("accumulator too large")
            if has_any(d, [f]):
                raise Unsupported("array recurrence in symbolic loop")
            deltas.append((c, L, free, d))
        inj = all(any(sp[0] == 'pt' and is_sym(sp[1]) and sums.depends(sp[1].t, kt) for sp in L.spec)
                  for c, L, fr, d in deltas)
        indep = all(not any(sp[0] == 'pt' and is_sym(sp[1]) and sums.depends(sp[1].t, kt) for sp in L.spec) and not L.vars
                    for c, L, fr, d in deltas)
        layers = []
        if inj:
            if len(deltas) != 1:
                raise Unsupported("several accumulating writes")
            for c, L, free, d in deltas:
                def val(fr, L=L, free=free, d=d):
                    fi = iter(fr)
                    full = [sp[1] if sp[0] == 'pt' else (next(fi) + sp[1] if sp[0] == 'free' else next(fi))
                            for sp in L.spec]
                    dd = z3.substitute(d, *[(q.t, term(x)) for q, x in zip(free, fr)]) if fr else d
                    return base(tuple(full)) + wrap(dd)
                M = Layer(L.spec, val, [(kt, z3.IntVal(0), term(n))] + L.vars, list(c) + L.conds,
                          [0, 0] + (L.time[1:] if L.time else []))
                M.group = object()
                layers.append(M)
        elif indep and len(deltas) == 1:
            c, L, free, d = deltas[0]

            def val(fr):
                fi = iter(fr)
                full = [sp[1] if sp[0] == 'pt' else (next(fi) + sp[1] if sp[0] == 'free' else next(fi)) for sp in L.spec]
                kk = core.bvar('?k')
                sub = [(q.t, term(x)) for q, x in zip(free, fr)] + [(kt, kk.t)]
                dd = z3.substitute(d, *sub)
                if c:
                    dd = z3.If(z3.And(*[z3.substitute(x, *sub) for x in c]), dd, z3.RealVal(0))
                return base(tuple(full)) + sums.sum_of_body(kk.t, 0, n, wrap(dd))
            layers.append(Layer(L.spec, val))
        else:
            raise Unsupported("accumulating writes of mixed form")
        for lp in S.loops:
            if lp not in buf.loop_token:
                lp.note_write(buf)
        buf.layers = buf.layers + tuple(layers)
        return True


def subst_value(v, sub):
    if is_sym(v):
        return wrap(z3.substitute(v.t, *sub))
    if isinstance(v, SArr):
        g = v.getter()
        return SArr([subst_value(s, sub) for s in v.shape], lambda idx: subst_value(g(idx), sub), v.dtype.kind)
    if isinstance(v, tuple):
        return tuple(subst_value(x, sub) for x in v)
    if isinstance(v, list):
        return [subst_value(x, sub) for x in v]
    if core._num(v) or isinstance(v, (str, bool, type(None))):
        return v
    raise Unsupported(f"appended value of type {type(v)}")


# ------------------------------------------------------------------------------------------------ helpers in the text
def pv_lit(s):
    f = float(s)
    if f in (float('inf'), float('-inf')) or f != f:
        return f
    return Fraction(s)


def pv_div(a, b):
    if isinstance(a, SArr) or isinstance(b, SArr):
        return a / b
    if is_sym(a) or is_sym(b):
        if (is_sym(a) or core._num(a)) and (is_sym(b) or core._num(b)):
            return core.div(a, b)
        return a / b
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return Fraction(a, b)
    return a / b


def pv_idiv(a, b):
    if isinstance(a, SArr):
        a /= b
        return a
    return pv_div(a, b)


def pv_pow(a, b):
    if isinstance(a, SArr) or isinstance(b, SArr):
        return a ** b if isinstance(a, SArr) else b.__rpow__(a)
    if (is_sym(a) or core._num(a)) and (is_sym(b) or core._num(b)):
        if not is_sym(a) and not is_sym(b) and isinstance(a, float) and isinstance(b, (int, float)):
            return a ** b
        return core.power(a, b)
    return a ** b


def pv_lmul(a, b):
    if isinstance(a, list) and is_sym(b):
        v = core.concretize(b)
        if v is None:
            if len(a) == 1:
                return seqs.Seq(b, lambda k: a[0])
            raise Unsupported("list repetition")
        b = v
    if isinstance(b, list) and is_sym(a):
        return pv_lmul(b, a)
    return a * b


def pv_setitem(o, k, v):
    if isinstance(o, SArr):
        o[k] = v
        return
    if S.loops and isinstance(o, (dict, list)):
        raise Unsupported("native container written inside a symbolic loop")
    o[k] = v


def pv_setattr(o, n, v):
    if S.loops and id(o) not in S.loop_born:
        raise Unsupported("attribute written inside a symbolic loop")
    setattr(o, n, v)


_OPS = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'Div': pv_div,
        'Pow': pv_pow, 'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b, 'BitOr': lambda a, b: a | b,
        'BitAnd': lambda a, b: a & b}
_IOPS = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__', 'Pow': '__ipow__',
         'BitOr': '__ior__', 'BitAnd': '__iand__'}


def _aug(cur, v, op):
    m = getattr(cur, _IOPS.get(op, '__none__'), None)
    if m is not None:
        r = m(v)
        if r is not NotImplemented:
            return r
    return _OPS[op](cur, v)


def pv_augitem(o, k, v, op):
    if isinstance(o, SArr):
        o[k] = _OPS[op](o[k], v)
        return
    pv_setitem(o, k, _aug(o[k], v, op))


def pv_augattr(o, n, v, op):
    pv_setattr(o, n, _aug(getattr(o, n), v, op))


def pv_in(x, c):
    if isinstance(c, (set, frozenset, dict)) and is_sym(x):
        return any_of([x == y for y in c])
    if isinstance(c, (list, tuple)) and (is_sym(x) or any(is_sym(y) for y in c)):
        return any_of([x is y or x == y for y in c])
    if type(c).__name__ in ('dict_keys', 'dict_values') and is_sym(x):
        return any_of([x == y for y in c])
    if isinstance(c, seqs.Seq) and c.kind == 'range' and is_sym(x):
        raise Unsupported("membership in symbolic range")
    return x in c


def any_of(bs):
    for b in bs:
        if b:
            return True
    return False


def pv_append(lst, v):
    if isinstance(lst, ListAcc):
        lst.items.append(v)
        return lst
    if isinstance(lst, seqs.Seq):
        return lst + seqs.Seq(1, lambda k: v)
    if S.loops and isinstance(lst, list) and id(lst) not in S.loop_born:
        # list created inside the current iteration is fine only when it is local to it; ListAcc covers the others
        pass
    lst.append(v)
    return lst


def pv_exc(cls):
    try:
        return cls("")
    except TypeError:
        try:
            return cls()
        except TypeError:
            return Exception("")


def pv_comp(kind, lam, it, ngen):
    s = seqs.symbolic_iterable(it)
    if s is None:
        src = seqs.native_list(it) if isinstance(it, seqs.Seq) else it
        r = lam(src)
        if kind == 'list':
            return r
        if kind == 'gen':
            return iter(r) if False else GenList(r)
        if kind == 'set':
            return make_set(r)
        return seqs.make_dict(r)
    if ngen != 1:
        raise Unsupported("nested comprehension over a symbolic range")

    def item(k):
        r = lam([s.item(k)])
        if len(r) != 1:
            raise Unsupported("filtered comprehension over a symbolic range")
        return r[0]
    if kind == 'dict':
        return seqs.SymMap(s.n, item)
    if kind == 'set':
        raise Unsupported("set comprehension over a symbolic range")
    return seqs.Seq(s.n, item)


class GenList(list):
    """an already evaluated generator expression (single use semantics are not relied upon)"""

    def __next__(self):
        if not self:
            raise StopIteration
        return self.pop(0)


def make_set(xs):
    return set(xs)


def pv_native(x):
    if seqs.symbolic_iterable(x) is not None:
        raise Unsupported("nested symbolic iteration in comprehension")
    return seqs.native_list(x) if isinstance(x, seqs.Seq) else x


# ---- builtins
def pv_len(x):
    if hasattr(x, 'pv_len'):
        return x.pv_len()
    return len(x)


def pv_range(*a):
    a = tuple(x.at() if isinstance(x, SArr) and x.ndim == 0 else x for x in a)
    if any(is_sym(x) for x in a):
        b = []
        for x in a:
            v = core.concretize(x)
            b.append(x if v is None else v)
        if not any(is_sym(x) for x in b):
            return range(*[int(x) for x in b])
        return seqs.sym_range(*b)
    for x in a:
        if isinstance(x, Fraction):
            raise TypeError("'float' object cannot be interpreted as an integer")
    return range(*a)


def _symit(x):
    return seqs.symbolic_iterable(x) is not None


def pv_enumerate(x, start=0):
    return seqs.sym_enumerate(x, start) if _symit(x) else enumerate(seqs.native_list(x) if isinstance(x, seqs.Seq) else x,
                                                                    start)


def pv_zip(*xs):
    if any(_symit(x) for x in xs):
        return seqs.sym_zip(*xs)
    return zip(*[seqs.native_list(x) if isinstance(x, seqs.Seq) else x for x in xs])


def pv_isinstance(x, t):
    if isinstance(t, tuple):
        return any(pv_isinstance(x, u) for u in t)
    k = getattr(t, '_pv_kind', None)
    if isinstance(x, SNum):
        if t is int or k == 'i' or t is numbers.Integral:
            return x.is_int
        if t is float or k == 'f':
            return not x.is_int
        if t in (numbers.Number, numbers.Real):
            return True
        return isinstance(x, t) if isinstance(t, type) else False
    if isinstance(x, SBool):
        return t is bool or k == 'b' or t is int
    if isinstance(x, Fraction):
        if t is float or k == 'f':
            return True
        if t in (numbers.Number, numbers.Real):
            return True
        return t is Fraction or t is object
    if k is not None and not isinstance(x, SArr):
        if k == 'i':
            return False if isinstance(x, (bool, int)) else False
        return False
    if t in (list, tuple) and isinstance(x, seqs.Seq):
        return t is list
    if t is dict and isinstance(x, seqs.SymMap):
        return True
    if not isinstance(t, type) and not hasattr(t, '__instancecheck__'):
        if isinstance(t, Opaque):
            return False
    return isinstance(x, t)


def pv_int(x=0, *a):
    if isinstance(x, SArr):
        x = x.item()
    if is_sym(x):
        return arrays.trunc(x)
    return int(x, *a)


def pv_float(x=0):
    if isinstance(x, SArr):
        x = x.item()
    if is_sym(x):
        return wrap(rterm(x))
    if isinstance(x, str):
        try:
            return Fraction(x)
        except ValueError:
            return float(x)
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    return float(x)


def pv_str(x=''):
    if is_sym(x):
        raise Unsupported("str() of a symbolic value")
    if isinstance(x, Fraction):
        return str(float(x))
    return str(x)


def pv_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        return wrap(x.t != 0)
    return bool(x)


def pv_list(x=()):
    if isinstance(x, GenList):
        return list(x)
    if _symit(x):
        return seqs.symbolic_iterable(x)
    return list(seqs.native_list(x) if isinstance(x, seqs.Seq) else x)


def pv_tuple(x=()):
    if _symit(x):
        return seqs.symbolic_iterable(x)
    return tuple(seqs.native_list(x) if isinstance(x, seqs.Seq) else x)


def pv_set(x=()):
    if hasattr(x, '__pv_set__'):
        return x.__pv_set__()
    if _symit(x):
        raise Unsupported("set of symbolic-length iterable")
    return set(seqs.native_list(x) if isinstance(x, seqs.Seq) else x)


def pv_dict(*a, **k):
    if a and isinstance(a[0], seqs.SymMap):
        return a[0]
    if a and _symit(a[0]):
        s = seqs.symbolic_iterable(a[0])
        return seqs.SymMap(s.n, lambda q: tuple(s.item(q)))
    if len(a) == 1 and not k:
        return seqs.make_dict(a[0])
    return dict(*a, **k)


def pv_type(x):
    if isinstance(x, SNum):
        return int if x.is_int else float
    if isinstance(x, Fraction):
        return float
    return type(x)


def pv_sum(x, start=0):
    s = seqs.symbolic_iterable(x)
    if s is not None:
        from . import sums
        k = core.bvar('?e')
        with core.Scope(k >= 0, k < s.n):
            probe = core.merged(lambda: s.item(k))
        if isinstance(probe, SArr):
            from . import npops
            return npops.sum_(seqs.seq_to_array(s), axis=0) + start
        r = sums.make_sum(0, s.n, s.item)
        if is_sym(probe) and isinstance(probe, SNum) and probe.is_int and is_sym(r) and not r.is_int:
            r = wrap(z3.ToInt(r.t))
        return r + start
    r = start
    for e in (seqs.native_list(x) if isinstance(x, seqs.Seq) else x):
        r = r + e
    return r


def pv_min(*a, **k):
    return _mm(a, k, False)


def pv_max(*a, **k):
    return _mm(a, k, True)


def _mm(a, k, ismax):
    xs = a[0] if len(a) == 1 else a
    if len(a) == 1 and isinstance(xs, SArr):
        from . import npops
        return npops._extreme(xs, None, ismax)
    if _symit(xs):
        from . import npops
        return npops._extreme(seqs.seq_to_array(seqs.symbolic_iterable(xs)), None, ismax)
    xs = list(seqs.native_list(xs) if isinstance(xs, seqs.Seq) else xs)
    if not any(is_sym(x) for x in xs) or k:
        return (max if ismax else min)(xs, **k)
    return arrays_extreme(xs, ismax)


def arrays_extreme(xs, ismax):
    from . import npops
    return npops.extreme_list(xs, ismax)


def pv_sorted(x, key=None, reverse=False):
    if _symit(x):
        raise Unsupported("sorted of symbolic-length iterable")
    xs = list(seqs.native_list(x) if isinstance(x, seqs.Seq) else x)
    if any(is_sym(e) for e in xs):
        # insertion sort with forks
        out = []
        for e in xs:
            j = len(out)
            while j > 0 and bool((key(e) if key else e) < (key(out[j - 1]) if key else out[j - 1])):
                j -= 1
            out.insert(j, e)
        return out[::-1] if reverse else out
    return sorted(xs, key=key, reverse=reverse)


def pv_abs(x):
    return abs(x)


def pv_all(x):
    s = seqs.symbolic_iterable(x)
    if s is not None:
        from . import npops
        return npops.forall_idx((s.n,), lambda idx: s.item(idx[0]))
    for e in (seqs.native_list(x) if isinstance(x, seqs.Seq) else x):
        if not e:
            return False
    return True


def pv_any(x):
    s = seqs.symbolic_iterable(x)
    if s is not None:
        return core.b_not(pv_all(seqs.Seq(s.n, lambda k: core.b_not(s.item(k)))))
    for e in (seqs.native_list(x) if isinstance(x, seqs.Seq) else x):
        if e:
            return True
    return False


def pv_map(f, *xs):
    if any(_symit(x) for x in xs):
        z = seqs.sym_zip(*xs)
        return seqs.Seq(z.n, lambda k: f(*z.item(k)))
    return GenList(map(f, *xs))


def pv_reversed(x):
    s = seqs.symbolic_iterable(x)
    if s is not None:
        return seqs.Seq(s.n, lambda k: s.item(s.n - 1 - k))
    return reversed(list(x))


def pv_round(x, nd=None):
    if is_sym(x):
        if not (nd is None or isinstance(nd, int)):
            raise Unsupported("round to a symbolic number of digits")
        if core.is_sym(x) and x.is_int and (nd is None or nd >= 0):
            return x
        t, q = core.rterm(x), 10 ** (nd or 0)
        k = core.ufd(f'round{nd or 0}', core.R, core.I)(t)        # a nearest multiple (ties unspecified)
        core.add_fact(core.z3.And(2 * (q * t - k) <= 1, 2 * (k - q * t) <= 1))
        return core.wrap(k) if nd is None else core.wrap(core.z3.ToReal(k) / q)
    return round(x, nd) if nd is not None else round(x)


def pv_callable(x):
    return callable(x)


# ------------------------------------------------------------------------------------------------- module loading
class Opaque:
    """an external object the model knows nothing about: using it is unsupported"""

    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Opaque(self._n + '.' + n)

    def __call__(self, *a, **k):
        raise Unsupported(f"external function {self._n}")

    def __mro_entries__(self, bases):
        return (object,)

    def __getitem__(self, k):
        return self

    def __repr__(self):
        return f"<external {self._n}>"


class ShimModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        if n == 'pi':
            return core.pi()
        return Opaque(self.__name__ + '.' + n)


NATIVE = {'re', 'timeit', 'os', 'sys', 'typing', 'logging', 'abc', 'collections', 'copy', 'json', 'pathlib',
          'datetime', 'functools', 'enum', 'warnings', 'time', 'dataclasses', 'numbers', 'configparser', 'shutil',
          'subprocess', 'argparse', 'string', 'operator', 'io', 'tempfile', 'inspect', 'traceback', 'textwrap',
          '__future__', 'types', 'contextlib', 'glob', 'pickle', 'random', 'hashlib', 'getpass', 'platform', 'stat', 'ast', 'packaging'}


class Universe:
    """one instrumented copy of the package"""

    def __init__(self):
        self.mods = {}
        self.shims = {}
        self.sources = {}
        from . import shims
        self.shimtable = shims.table()
        b = dict(vars(_bi))
        g = globals()
        for n in ('len', 'range', 'enumerate', 'zip', 'isinstance', 'sum', 'min', 'max', 'sorted', 'abs', 'all', 'any', 'map',
                  'reversed', 'round'):
            b[n] = g['pv_' + n]
        for n in ('int', 'float', 'str', 'list', 'tuple', 'set', 'dict', 'bool', 'type', 'lit', 'div', 'idiv', 'pow', 'lmul',
                  'setitem', 'setattr', 'augitem', 'augattr', 'in', 'append', 'exc', 'comp', 'native'):
            b['_pv_' + n] = g['pv_' + n]
        b['_pv_frozenset'] = pv_set
        b['_pv_complex'] = complex
        b['_pv_loop'] = make_loop
        b['__import__'] = self._import
        b['locals'] = _bi.locals
        self.builtins = b
        import collections
        self.sys = ShimModule('sys')
        self.sys.__dict__.update({k: v for k, v in vars(sys).items() if k != 'modules'})
        self.sys.modules = collections.ChainMap(self.mods, sys.modules)

    def path_of(self, name):
        if name.startswith('bin__'):
            return os.path.join(REPO, 'bin', name[5:]), False
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base) and (os.path.exists(os.path.join(base, '__init__.py')) or True):
            p = os.path.join(base, '__init__.py')
            return p if os.path.exists(p) else None, True
        return base + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        else:
            parent = None
        path, ispkg = self.path_of(name)
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = []
        if path is not None:
            if not os.path.exists(path):
                raise ModuleNotFoundError(f"No module named {name!r}")
            m.__file__ = path
            self.mods[name] = m
            src = open(path).read()
            self.sources[name] = src
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src, path)
            tree = Transformer(os.path.relpath(path, REPO)).visit(tree)
            ast.fix_missing_locations(tree)
            try:
                exec(compile(tree, path, 'exec'), m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        else:
            self.mods[name] = m
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def _exists(self, name):
        p, ispkg = self.path_of(name)
        return ispkg or os.path.exists(p)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == ROOT_PKG:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._exists(name + '.' + f):
                        self.load(name + '.' + f)
                return m
            return self.mods[top]
        if name in self.shimtable or top in self.shimtable:
            mod = self.shimtable.get(name)
            if mod is None:
                mod = ShimModule(name)
                self.shimtable[name] = mod
            if fromlist:
                for f in fromlist:
                    sub = name + '.' + f
                    if sub in self.shimtable and not f in mod.__dict__:
                        setattr(mod, f, self.shimtable[sub])
                return mod
            # import a.b -> returns a with attribute b
            parts = name.split('.')
            for i in range(1, len(parts)):
                par = self.shimtable.setdefault('.'.join(parts[:i]), ShimModule('.'.join(parts[:i])))
                child = self.shimtable.setdefault('.'.join(parts[:i + 1]), ShimModule('.'.join(parts[:i + 1])))
                setattr(par, parts[i], child)
            return self.shimtable[top]
        if name == 'sys':
            return self.sys
        if top in NATIVE:
            return _bi.__import__(name, globals, locals, fromlist, 0)
        m = self.shimtable.setdefault(name, ShimModule(name))
        if fromlist:
            return m
        return self.shimtable.setdefault(top, ShimModule(top))
