"""obligations: prove a condition from the path condition, or refute it with a model"""
import z3
from . import core, sums, nlabs
from .core import S, bterm


def entails(cond, timeout=None):
    return check(cond, timeout)[0] == 'proved'


def check(cond, timeout=None):
    """-> ('proved'|'refuted'|'unknown', model)"""
    cond = z3.simplify(bterm(cond))
    if z3.is_true(cond):
        return 'proved', None
    # split conjunctions
    if z3.is_and(cond):
        for c in cond.children():
            r = check(c, timeout)
            if r[0] != 'proved':
                return r
        return 'proved', None
    if z3.is_eq(cond) and z3.is_arith(cond.arg(0)):
        if poly_equal(cond.arg(0), cond.arg(1)):
            return 'proved', None
    ctx = core.context()
    if any(True for e in core.subterms([cond]) if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE):
        cond = core.settle(cond)
        if z3.is_true(cond):
            return 'proved', None
    q = ctx + [cond]
    # stage 1: nothing but the path condition and the axiom instances
    extra = sums.prepare(q, light=True)
    nl = nlabs.refute(ctx + extra + [z3.Not(cond)])
    if nl:
        return 'proved', None
    r, m = core._solve(ctx + extra + [z3.Not(cond)], min(timeout or S.timeout_ms, 2500), want_model=True)
    if r == z3.unsat:
        return 'proved', None
    for similar in (True, False):
        sums._skipped[0] = 0
        extra = sums.prepare(q, similar=similar)
        if similar and not sums._skipped[0]:
            continue
        if nl is False and nlabs.refute(ctx + extra + [z3.Not(cond)]):
            return 'proved', None
        r, m = core._solve(ctx + extra + [z3.Not(cond)], timeout, want_model=True)
        if r == z3.unsat:
            return 'proved', None
        if similar:
            continue
        if r != z3.sat:
            if nl_prove(ctx + extra, cond) or split_prove(ctx + extra, cond):
                return 'proved', None
            return 'unknown', None
    S.refuted_names = set(core.TermSet(ctx + extra + [cond]).index)
    return 'refuted', m


def nl_prove(ctx, cond):
    """second opinion on nonlinear goals: qfnra-nlsat after solve-eqs"""
    try:
        t = z3.TryFor(z3.Then('simplify', 'solve-eqs', 'smt'), 4000)
        s = t.solver()
        s.add(*ctx)
        s.add(z3.Not(cond))
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False


def conditions(t):
    """conditions of the if-then-else terms of t, innermost first, that contain none themselves"""
    out, seen = [], set()
    for e in core.subterms([t]):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            todo = [e.arg(0)]
            while todo:
                c = todo.pop()
                if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
                    todo.extend(c.children())
                elif c.get_id() not in seen:
                    seen.add(c.get_id())
                    if not any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE for x in core.subterms([c])):
                        out.append(c)
    return out


def split_prove(ctx, cond, depth=8, budget=None):
    """case analysis on the if-then-else conditions of the goal (products of conditional terms defeat the arithmetic solver)"""
    budget = budget if budget is not None else [60]
    cs = conditions(cond)
    if not cs or depth == 0:
        return False
    c = cs[0]
    for v in (True, False):
        if budget[0] <= 0:
            return False
        budget[0] -= 1
        b = z3.BoolVal(v)
        g = z3.simplify(z3.substitute(cond, (c, b)))
        fact = c if v else z3.Not(c)
        if z3.is_true(g):
            continue
        cx = [z3.simplify(z3.substitute(t, (c, b))) for t in ctx] + [fact]
        r = core._solve(cx + [z3.Not(g)], 1500)
        if r == z3.unsat:
            continue
        if not split_prove(cx, g, depth - 1, budget):
            return False
    return True


def poly_equal(a, b):
    try:
        d = sums._padd(sums.poly(a), sums.poly(b), -1)
        return not d
    except sums.Blowup:
        return False
