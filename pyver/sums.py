"""Sum terms  Sum_{k=lo}^{hi-1} body(k)  with symbolic bounds.

A sum is represented by an application SUM_<id>(params) of an uninterpreted function, <id> identifying (k, lo, hi, body)
up to renaming.  Construction normalises: the body is expanded to monomials, factors that do not depend on k are pulled
out, powers of k are summed in closed form, sums of sums are kept as nested applications (Fubini: the order of the two
binders of a directly nested sum is canonicalised when the bounds are independent).
Two sums are equated when their bounds are equal and their bodies agree at a generic k (a sound congruence rule)."""
from fractions import Fraction
import itertools
import z3
from . import core
from .core import S, SNum, wrap, term, rterm, is_sym, Unsupported

EXPAND_LIMIT = 40


def _is_param(c):
    return z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.decl().name().startswith('?')


def params_of(ts):
    out = {}
    for e in core.subterms(ts):
        if _is_param(e):
            out[e.decl().name()] = e
    return [out[k] for k in sorted(out, key=lambda s: int(s.split('!')[-1]))]


def depends(t, k):
    for e in core.subterms([t]):
        if e.eq(k):
            return True
    return False


# ------------------------------------------------------------------------------------------- polynomials
class Blowup(Exception):
    pass


_alive = {}


def _atom(t):
    _alive[t.get_id()] = t
    return {((t.get_id(), 1),): Fraction(1)}


def _pmul(p, q):
    if len(p) * len(q) > 600:
        raise Blowup()
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for a, e in m2:
                d[a] = d.get(a, 0) + e
            m = tuple(sorted((a, e) for a, e in d.items() if e != 0))
            out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c != 0}


def _padd(p, q, s=1):
    out = dict(p)
    for m, c in q.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c != 0}


def poly(t):
    """expand a real/int term into a polynomial over atoms (dict monomial -> Fraction)"""
    if z3.is_int_value(t):
        v = t.as_long()
        return {(): Fraction(v)} if v else {}
    if z3.is_rational_value(t):
        v = t.as_fraction()
        return {(): v} if v else {}
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for a in t.children():
                r = _padd(r, poly(a))
            return r
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            r = poly(ch[0])
            for a in ch[1:]:
                r = _padd(r, poly(a), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return _padd({}, poly(t.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for a in t.children():
                r = _pmul(r, poly(a))
            return r
        if k == z3.Z3_OP_DIV:
            den = poly(t.arg(1))
            num = poly(t.arg(0))
            if len(den) == 1:
                (m, c), = den.items()
                inv = {tuple((a, -e) for a, e in m): 1 / c}
                return _pmul(num, inv)
            d = z3.simplify(t.arg(1), som=True)
            _alive[d.get_id()] = d
            return _pmul(num, {((d.get_id(), -1),): Fraction(1)})
        if k == z3.Z3_OP_TO_REAL:
            inner = poly(t.arg(0))
            out = {}
            for m, c in inner.items():
                m2 = []
                for a, e in m:
                    ta = z3.ToReal(_alive[a])
                    _alive[ta.get_id()] = ta
                    m2.append((ta.get_id(), e))
                out[tuple(sorted(m2))] = out.get(tuple(sorted(m2)), 0) + c
            return out
    return _atom(t)


def perfect_square(t):
    """r with r*r == t (as polynomials, selection counts replaced by their closed forms), or None"""
    try:
        p = poly(z3.simplify(t, som=False))
        counts = {}
        for F in S.filters:
            c = getattr(F.count, 't', None)
            if c is None:
                continue
            for m in p:
                for a, e in m:
                    if _alive[a].eq(c) or _alive[a].eq(z3.ToReal(c)):
                        counts[a] = F
        if counts:
            sub = []
            for a, F in counts.items():
                cf = F.count_fact()
                if not cf:
                    return None
                sub.append((F.count.t, cf[0].arg(1)))
            q = {(): Fraction(0)}
            for m, co in p.items():
                f = {(): co}
                for a, e in m:
                    b = poly(dict((k, v) for k, v in [(x, [v for c, v in sub if c.eq(counts[x].count.t)][0])
                                                      for x in counts]).get(a, _alive[a]))
                    if e < 0 or e != int(e):
                        return None
                    for _ in range(int(e)):
                        f = pmul(f, b)
                q = padd(q, f)
            p = {m: c for m, c in q.items() if c != 0}
        if not p or any(e < 0 for m in p for a, e in m):
            return None
        return psqrt(p)
    except (KeyError, AttributeError, TypeError):
        return None


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
    return {m: c for m, c in r.items() if c != 0}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c != 0}


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def psqrt(p):
    import math as _m

    atoms = sorted({a for m in p for a, e in m})

    def key(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in atoms)
    lead = max(p, key=key)
    c = p[lead]
    if c <= 0 or any(e % 2 for a, e in lead):
        return None
    n, d = _m.isqrt(c.numerator), _m.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    lm, lc = tuple((a, e // 2) for a, e in lead), Fraction(n, d)
    r = {lm: lc}
    rest = padd(p, {m: -c for m, c in pmul(r, r).items()})
    for _ in range(12):
        if not rest:
            return from_poly(r)
        m = max(rest, key=key)
        q = mmul(m, tuple((a, -e) for a, e in lm))
        if any(e < 0 for a, e in q) or q in r:
            return None
        r[q] = rest[m] / (2 * lc)
        rest = padd(p, {m: -c for m, c in pmul(r, r).items()})
    return None


def from_poly(p):
    """canonical term of a polynomial"""
    if not p:
        return z3.RealVal(0)
    ts = []
    for m in sorted(p, key=lambda m: tuple((str(_alive[a].decl()), a, e) for a, e in m)):
        ts.append(mono_term(m, p[m]))
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def mono_term(m, c):
    num, den = [], []
    for a, e in m:
        t = _alive[a]
        t = z3.ToReal(t) if t.is_int() else t
        (num if e > 0 else den).extend([t] * abs(e))
    r = None
    if c != 1 or not num:
        r = z3.RealVal(c)
    for t in num:
        r = t if r is None else r * t
    for t in den:
        r = r / t
    return r


# ------------------------------------------------------------------------------------------- construction
class SumDef:
    __slots__ = ('id', 'k', 'lo', 'hi', 'body', 'params', 'decl')


def make_sum(lo, hi, fn):
    """Sum of fn(k) for lo <= k < hi (python semantics: empty when hi <= lo)"""
    if not is_sym(lo) and not is_sym(hi):
        if hi - lo <= EXPAND_LIMIT:
            r = Fraction(0)
            for k in range(int(lo), int(hi)):
                r = r + fn(k)
            return r
    k = core.bvar('?k')
    with core.Scope(k >= lo, k < hi):
        body = core.merged(lambda: fn(k), 'sum body')
        if is_sym(body) and any(z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE for e in core.subterms([body.t])):
            body = wrap(core.settle(body.t))
    return sum_of_body(k.t, lo, hi, body)


def sum_of_body(k, lo, hi, body):
    body = push_real(rterm(body))
    tlo, thi = term(lo), term(hi)
    if not core.known(tlo <= thi):
        thi = z3.If(thi >= tlo, thi, tlo)
    r = split_interval(k, tlo, thi, body)
    if r is not None:
        return r
    r = selection_sum(k, tlo, thi, body)
    if r is not None:
        return r
    try:
        p = poly(body)
    except Blowup:
        p = _atom(body)
    out = {}
    for m, c in p.items():
        dep, ind = [], []
        for a, e in m:
            (dep if depends(_alive[a], k) else ind).append((a, e))
        if not dep:
            s = poly(z3.ToReal(thi - tlo))
        else:
            s = _sum_mono(k, tlo, thi, tuple(dep))
        out = _padd(out, _pmul({tuple(ind): c}, s))
    return wrap(from_poly(out))


def selection_sum(k, lo, hi, body):
    """Sum over the positions of a selection of g(selected index)  ==  Sum over all indices of [selected] g(index)"""
    if not (z3.is_int_value(lo) and lo.as_long() == 0):
        return None
    cands = [(F.count, lambda F=F: F.selF(k), F.n, F.P) for F in S.filters]
    cands += [(F.count, lambda F=F: term(F.source(wrap(k))[0]), F.E.shape[0], lambda x, F=F: core.bterm(F.member((wrap(x),))))
              for F in S.isinfilters]
    for cnt, sel, n, P in cands:
        if not is_sym(cnt) or not (term(cnt).eq(hi) or z3.is_app(hi) and hi.decl().kind() == z3.Z3_OP_ITE
                                   and term(cnt).eq(hi.arg(1))):
            continue
        y = core.bvar('?k')
        s = sel()
        b = z3.substitute(body, (s, y.t))
        if b.eq(body) or depends(b, k):
            continue
        return sum_of_body(y.t, 0, n, wrap(z3.If(P(y.t), b, z3.RealVal(0))))
    return None


def swapped(a):
    """Sum_k u(k) Sum_s v(k, s)  ->  Sum_s Sum_k u(k) v(k, s)   (inner bounds independent of k), or None"""
    if a.get_id() in S.swapped:
        return S.swapped[a.get_id()][1]
    r = None
    k, lo, hi, body = instance(a)
    try:
        p = poly(body)
        if len(p) == 1:
            (m, c), = p.items()
            inner = [(x, e) for x, e in m if e == 1 and z3.is_app(_alive[x]) and _alive[x].decl().name() in S.sum_registry]
            if len(inner) == 1:
                x = inner[0][0]
                s, slo, shi, sbody = instance(_alive[x])
                if not depends(slo, k) and not depends(shi, k):
                    rest = mono_term(tuple(t for t in m if t[0] != x), c)
                    with core.Scope(SBoolT(slo <= s), SBoolT(s < shi)):
                        mid = sum_of_body(k, wrap(lo), wrap(hi), wrap(rest * sbody))
                    r = rterm(sum_of_body(s, wrap(slo), wrap(shi), mid))
    except (Blowup, Unsupported):
        pass
    S.swapped[a.get_id()] = (a, r)
    return r


def push_real(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        a = t.arg(0)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(a.arg(0), push_real(z3.ToReal(a.arg(1))), push_real(z3.ToReal(a.arg(2))))
        if z3.is_int_value(a):
            return z3.RealVal(a.as_long())
    return t


def split_interval(k, lo, hi, body):
    """Sum of If(c(k), a, b) with c a linear (in)equality in k: split the range at the threshold"""
    if not (z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE and depends(body.arg(0), k)):
        return None
    c, a, b = body.children()
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    if not (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c) or z3.is_eq(c)) or not c.arg(0).is_int():
        return None
    d = z3.simplify(c.arg(0) - c.arg(1), som=True)          # d (<=,>=,<,>,==) 0
    c0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))))
    s = z3.simplify(z3.substitute(d, (k, k + 1)) - d, som=True)
    if not z3.is_int_value(s) or abs(s.as_long()) != 1 or depends(c0, k):
        return None
    s = s.as_long()

    def clampe(x):
        x = z3.simplify(x)
        if core.known(z3.And(lo <= x, x <= hi)):
            return x
        if core.known(x <= lo):
            return lo
        if core.known(x >= hi):
            return hi
        return z3.If(x <= lo, lo, z3.If(x >= hi, hi, x))

    def part(l, h, t):
        return sum_of_body(k, wrap(l), wrap(h), wrap(t))
    if z3.is_eq(c):
        x = z3.simplify(-c0) if s == 1 else c0
        inside = z3.And(lo <= x, x < hi)
        dif = wrap(z3.substitute(a, (k, x))) - wrap(z3.substitute(b, (k, x)))
        rest = part(lo, hi, b)
        return rest + core.ite(wrap(inside), dif, Fraction(0))
    le = z3.is_le(c) or z3.is_lt(c)
    strict = z3.is_lt(c) or z3.is_gt(c)
    # true for k on one side of the threshold
    if s == 1:
        # k + c0 <= 0  <=> k < -c0 + 1 ;  k + c0 < 0 <=> k < -c0 ; >= : k >= -c0 ; > : k >= -c0+1
        if le:
            m = clampe(-c0 + (0 if strict else 1))
            return part(lo, m, a) + part(m, hi, b)
        m = clampe(-c0 + (1 if strict else 0))
        return part(lo, m, b) + part(m, hi, a)
    # -k + c0 <= 0 <=> k >= c0 ; < : k >= c0+1 ; >= : k <= c0 <=> k < c0+1 ; > : k < c0
    if le:
        m = clampe(c0 + (1 if strict else 0))
        return part(lo, m, b) + part(m, hi, a)
    m = clampe(c0 + (0 if strict else 1))
    return part(lo, m, a) + part(m, hi, b)


def _sum_mono(k, lo, hi, dep):
    # closed form for pure powers of k
    if len(dep) == 1 and dep[0][1] in (1, 2, 3):
        t = _alive[dep[0][0]]
        if t.eq(z3.ToReal(k)) or t.eq(k):
            e = dep[0][1]

            def F(n):      # Sum_{j<n} j^e
                n = z3.ToReal(n)
                if e == 1:
                    return n * (n - 1) / 2
                if e == 2:
                    return (n - 1) * n * (2 * n - 1) / 6
                return (n * (n - 1) / 2) * (n * (n - 1) / 2)
            return poly(F(hi) - F(lo))
    body = mono_term(dep, Fraction(1))
    return _atom(sum_atom(k, lo, hi, body))


def sorted_product(t):
    """factors in an order that depends on the factors alone"""
    if not z3.is_mul(t):
        return t
    fs, todo = [], list(t.children())
    while todo:
        e = todo.pop()
        if z3.is_mul(e):
            todo.extend(e.children())
        else:
            fs.append(e)
    fs.sort(key=lambda e: (not z3.is_rational_value(e), e.hash(), e.get_id()))
    return z3.Product(*fs)


def sum_atom(k, lo, hi, body):
    # Fubini canonicalisation: body = product containing exactly one inner sum whose bounds do not depend on k
    ps = [p for p in params_of([body, lo, hi]) if not p.eq(k)]
    # canonical names, in order of first occurrence
    subst = [(k, z3.Int('?kap!0'))]
    for i, p in enumerate(ps):
        subst.append((p, z3.Const(f'?par{i}!0', p.sort())))
    cb = sorted_product(z3.substitute(body, *subst))
    clo = z3.simplify(z3.substitute(lo, *subst))
    chi = z3.simplify(z3.substitute(hi, *subst))
    key = (cb.get_id(), clo.get_id(), chi.get_id(), len(ps))
    d = S.sum_cache.get(key)
    if d is None:
        d = SumDef()
        d.id = len(S.sum_cache)
        d.k = z3.Int('?kap!0')
        d.params = [s[1] for s in subst[1:]]
        d.lo, d.hi, d.body = clo, chi, cb
        if ps:
            d.decl = z3.Function(f'SUM_{d.id}', *([p.sort() for p in ps] + [core.R]))
        else:
            d.decl = z3.Real(f'SUM_{d.id}')
        S.sum_cache[key] = d
        S.sum_registry[f'SUM_{d.id}'] = d
    return d.decl(*ps) if ps else d.decl


def sum_apps(ts):
    if not isinstance(ts, core.TermSet):
        ts = core.TermSet(ts)
    return [e for n, es in ts.index.items() if n in S.sum_registry for e in es]


def instance(e):
    d = S.sum_registry[e.decl().name()]
    args = e.children()
    sub = list(zip(d.params, args))
    k = z3.Int(core.fresh_name('?k'))
    sub1 = sub + [(d.k, k)]
    return k, z3.substitute(d.lo, *sub) if sub else d.lo, z3.substitute(d.hi, *sub) if sub else d.hi, \
        z3.substitute(d.body, *sub1)


# ------------------------------------------------------------------------------------------- lemma instances
_in_prepare = [0]


_skipped = [0]
_names_cache = {}


def names_of(a):
    i = a.get_id()
    r = _names_cache.get(i)
    if r is None:
        k, lo, hi, body = instance(a)
        r = _names_cache[i] = (a, frozenset(n for n, _, _ in core.term_apps(body)))
    return r[1]


def prepare(ts, light=False, similar=False):
    """instances of the axioms and lemmas for the applications in ts; similar: compare only sums over the same symbols"""
    ts = core.TermSet(ts)
    out = core.math_axioms(ts)
    for h in S.hooks:
        out.extend(h(ts, light))
    out.extend(forall_instances(ts))
    apps = sum_apps(ts)
    if light or _in_prepare[0] > 3:
        return out
    # the instances mention new applications: instantiate the axioms for those too (bounded number of rounds)
    seen = {e.get_id() for e in out}
    for _ in range(2):
        more = core.TermSet(out, base=ts)
        new = core.math_axioms(more)
        for h in S.hooks:
            new.extend(h(more, True))
        new.extend(forall_instances(more))
        new = [e for e in new if e.get_id() not in seen]
        seen.update(e.get_id() for e in new)
        if not new or len(out) + len(new) > 4000:
            break
        out.extend(new)
    _in_prepare[0] += 1
    try:
        done = set()
        if len(apps) <= 12:
            for a in list(apps):
                b = swapped(a)
                if b is not None:
                    out.append(a == b)
                    apps.extend(e for e in sum_apps([b]) if not params_of([e]) or True)
        uniq = {}
        for a in apps:
            uniq[a.get_id()] = a
        apps = list(uniq.values())
        for a, b in itertools.combinations(apps, 2):
            if a.eq(b):
                continue
            key = (a.get_id(), b.get_id())
            if key in done:
                continue
            done.add(key)
            if similar and names_of(a) != names_of(b):
                _skipped[0] += 1
                continue
            if sums_equal(a, b):
                out.append(a == b)
        for a in apps:
            k, lo, hi, body = instance(a)
            out.append(z3.Implies(hi <= lo, a == 0))
            # sign lemma
            with core.Scope(SBoolT(lo <= k), SBoolT(k < hi)):
                if core.known(body > 0, 800):
                    out.append(z3.Implies(lo < hi, a > 0))
                elif core.known(body >= 0, 800):
                    out.append(a >= 0)
                if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE and S.filters:
                    # a selected index has a rank below the number of selected ones
                    fs = [wrap(z3.Implies(F.P(k), z3.And(F.rankF(k) >= 0, F.rankF(k) < term(F.count)))) for F in S.filters
                          if is_sym(F.count) and term(F.n).eq(hi)]
                    if fs:
                        with core.Scope(*fs):
                            if core.known(body == 0, 1500):
                                out.append(a == 0)
    finally:
        _in_prepare[0] -= 1
    return out


MAX_INSTANCES = 400


def forall_instances(ts):
    """ground instances of the universal facts recorded on this path, by matching their applications"""
    out = []
    for p, vars_, rng, body in S.foralls:
        ids = {v.get_id(): n for n, v in enumerate(vars_)}
        pats = []
        for nm, e, i in core.term_apps(body):
            m = {}
            for pos, a in enumerate(e.children()):
                if a.get_id() in ids:
                    m.setdefault(ids[a.get_id()], (pos, None))
                elif a.is_int():
                    for v in vars_:
                        if depends(a, v):
                            off = z3.simplify(a - v)
                            if not any(depends(off, w) for w in vars_):
                                m.setdefault(ids[v.get_id()], (pos, off))
            if m:
                pats.append((nm, e, m))
        full = [q for q in pats if len(q[2]) == len(vars_)]
        seen = set()
        subs = []
        if full:
            for nm, e, m in full:
                for g in ts.index.get(nm, ()):
                    if g.num_args() != e.num_args():
                        continue
                    subs.append([g.arg(m[n][0]) if m[n][1] is None else g.arg(m[n][0]) - m[n][1] for n in range(len(vars_))])
        elif pats:
            cands = [[] for _ in vars_]
            for nm, e, m in pats:
                for g in ts.index.get(nm, ()):
                    for n, (pos, off) in m.items():
                        t = g.arg(pos) if off is None else g.arg(pos) - off
                        if all(not t.eq(x) for x in cands[n]):
                            cands[n].append(t)
            if all(len(x) <= 12 for x in cands):
                subs = [list(x) for x in itertools.product(*cands)]
        for sub in subs:
            if len(seen) > MAX_INSTANCES:
                break
            key = tuple(t.get_id() for t in sub)
            if key in seen or any(depends(t, v) for t in sub for v in vars_):
                continue
            seen.add(key)
            st = list(zip(vars_, sub))
            out.append(z3.Implies(z3.And(p, z3.substitute(rng, *st)), z3.substitute(body, *st)))
    return out


def SBoolT(t):
    return core.SBool(t)


def sums_equal(a, b):
    k1, lo1, hi1, b1 = instance(a)
    k2, lo2, hi2, b2 = instance(b)
    if not (core.known(lo1 == lo2) and core.known(hi1 == hi2)):
        # shifted sums: same length
        if not core.known(hi1 - lo1 == hi2 - lo2):
            return False
        b2 = z3.substitute(b2, (k2, k1 + (lo2 - lo1)))
    else:
        b2 = z3.substitute(b2, (k2, k1))
    with core.Scope(SBoolT(lo1 <= k1), SBoolT(k1 < hi1)):
        from .proof import entails
        return entails(b1 == b2, timeout=4000)
