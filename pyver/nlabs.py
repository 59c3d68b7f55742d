"""linear abstraction: every nonlinear monomial (after expansion) becomes an opaque constant; conditional factors are lifted out.
The abstraction has every model of the original, so an unsatisfiable abstraction proves the original unsatisfiable."""
from fractions import Fraction
import z3
from . import core, sums


class TooBig(Exception):
    pass


class Abstraction:
    def __init__(self, limit=8000):
        self.memo, self.mono, self.keep = {}, {}, []
        self.steps, self.limit = 0, limit
        self.nonlinear = False

    def __call__(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            self.keep.append(t)
            r = self.memo[i] = self.build(t)
        return r

    def build(self, t):
        self.steps += 1
        if self.steps > self.limit:
            raise TooBig()
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        k = t.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or k == z3.Z3_OP_EQ and z3.is_arith(t.arg(0)):
            if t.arg(0).is_int():
                a, b = self(t.arg(0)), self(t.arg(1))
                d = {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b, z3.Z3_OP_EQ: a == b}
                return d[k]
            return self.relation(t.arg(0) - t.arg(1), k)
        if z3.is_arith(t) and not t.is_int() and k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
            return self.arith(t)
        if k == z3.Z3_OP_MUL and sum(1 for a in t.children() if not z3.is_int_value(a)) > 1:
            self.nonlinear = True
        return t.decl()(*[self(a) for a in t.children()]) if k == z3.Z3_OP_UNINTERPRETED else self.rebuild(t)

    def rebuild(self, t):
        ch = [self(a) for a in t.children()]
        k = t.decl().kind()
        if k == z3.Z3_OP_AND:
            return z3.And(*ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(*ch)
        if k == z3.Z3_OP_NOT:
            return z3.Not(ch[0])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(*ch)
        if k == z3.Z3_OP_ITE:
            return z3.If(*ch)
        if k == z3.Z3_OP_EQ:
            return ch[0] == ch[1]
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        if k == z3.Z3_OP_ADD:
            return z3.Sum(ch)
        if k == z3.Z3_OP_MUL:
            return z3.Product(ch)
        return z3.substitute(t, *[(a, b) for a, b in zip(t.children(), ch) if not a.eq(b)]) if any(
            not a.eq(b) for a, b in zip(t.children(), ch)) else t

    def relation(self, d, k):
        e = self.arith(d)
        z = z3.RealVal(0)
        return {z3.Z3_OP_LE: e <= z, z3.Z3_OP_LT: e < z, z3.Z3_OP_GE: e >= z, z3.Z3_OP_GT: e > z, z3.Z3_OP_EQ: e == z}[k]

    def arith(self, t):
        try:
            p = sums.poly(t)
        except sums.Blowup:
            raise TooBig()
        # lift a conditional factor of a nonlinear monomial
        for m in p:
            if len(m) > 1 or any(e != 1 for a, e in m):
                self.nonlinear = True
                for a, e in m:
                    x = sums._alive[a]
                    y = x.arg(0) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL else x
                    it = next((s for s in core.subterms([y]) if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE
                               and z3.is_arith(s)), None) if not z3.is_const(y) else None
                    if it is not None and self.outer(y, it):
                        self.steps += 5
                        c, u, v = it.children()
                        return z3.If(self(c), self(z3.simplify(z3.substitute(t, (it, u)))),
                                     self(z3.simplify(z3.substitute(t, (it, v)))))
        out = []
        for m in p:
            out.append(self.monomial(m) * z3.RealVal(p[m]) if m else z3.RealVal(p[m]))
        return z3.Sum(out) if out else z3.RealVal(0)

    @staticmethod
    def outer(y, it):
        """it is y itself or occurs in y below arithmetic operators only (a denominator that is a sum)"""
        if y.eq(it):
            return True
        if z3.is_app(y) and y.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV,
                                                 z3.Z3_OP_TO_REAL):
            return any(Abstraction.outer(a, it) for a in y.children())
        return False

    def monomial(self, m):
        if len(m) == 1 and m[0][1] == 1:
            x = sums._alive[m[0][0]]
            return self(x) if not (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL)) else x
        ts = []
        for a, e in m:
            x = sums._alive[a]
            ts.append((self(x).get_id() if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else a, e))
        key = tuple(sorted(ts))
        if key not in self.mono:
            self.mono[key] = z3.Real(f'nl!{len(self.mono)}')
        return self.mono[key]


def refute(assertions, timeout=1500):
    """True if the linear abstraction is unsatisfiable; None when there is nothing nonlinear or it is too big"""
    A = Abstraction()
    try:
        ts = [A(z3.simplify(t)) for t in assertions]
    except (TooBig, sums.Blowup):
        return None
    if not A.nonlinear:
        return None
    return core._solve(ts, timeout) == z3.unsat
