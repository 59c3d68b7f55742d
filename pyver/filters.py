"""Order-preserving selections (boolean masks), flat index spaces and sorted sets, axiomatised by ground instances.

Filter        the increasing enumeration sel(0) < sel(1) < ... of {x in [0,n) : P(x)}  with inverse rank.
FlatSpace     the bijection between multi-indices of a shape and flat positions (C or F order), lexicographic.
SortedSet     the increasing enumeration of a finite set of reals (np.unique / np.intersect1d / np.union1d).
"""
import itertools
from fractions import Fraction
import z3
from . import core
from .core import S, SNum, SBool, is_sym, term, rterm, bterm, wrap, Unsupported, known, fork, b_and


def _apps(ts, decls):
    if not isinstance(ts, core.TermSet):
        ts = core.TermSet(ts)
    return {d.name(): ts.index.get(d.name(), []) for d in decls}


class FlatSpace:
    def __init__(self, shape, order):
        self.shape = tuple(shape)
        self.order = order
        self.nd = len(shape)
        n = 1
        for s in self.shape:
            n = s * n
        self.size = n
        self.symbolic = any(is_sym(s) for s in self.shape)
        if self.symbolic:
            u = core.fresh_name('sp')
            self.Rs = [z3.Function(f'R{d}_{u}', core.I, core.I) for d in range(self.nd)]
            self.FL = z3.Function(f'FL_{u}', *([core.I] * (self.nd + 1)))
            S.hooks.append(self.hook)

    def flat(self, *coords):
        if self.nd == 1:
            return coords[0]
        if not self.symbolic:
            k = 0
            dims = range(self.nd) if self.order == 'C' else reversed(range(self.nd))
            for d in dims:
                k = k * self.shape[d] + coords[d]
            return k
        # recognise flat(unflat(k))
        ts = [term(c) for c in coords]
        if all(z3.is_app(t) and t.num_args() == 1 and t.decl().eq(self.Rs[d]) for d, t in enumerate(ts)):
            a = ts[0].arg(0)
            if all(t.arg(0).eq(a) for t in ts):
                return wrap(a)
        return wrap(self.FL(*ts))

    def unflat(self, k):
        if self.nd == 1:
            return (k,)
        if not self.symbolic:
            if not is_sym(k):
                out = []
                dims = range(self.nd) if self.order == 'F' else reversed(range(self.nd))
                res = [0] * self.nd
                for d in dims:
                    res[d] = k % self.shape[d]
                    k = k // self.shape[d]
                return tuple(res)
            res = [0] * self.nd
            dims = range(self.nd) if self.order == 'F' else reversed(range(self.nd))
            for d in dims:
                res[d] = core.mod(k, self.shape[d])
                k = core.floordiv(k, self.shape[d])
            return tuple(res)
        t = term(k)
        if z3.is_app(t) and t.decl().eq(self.FL):
            return tuple(wrap(a) for a in t.children())
        return tuple(wrap(r(t)) for r in self.Rs)

    def inb(self, coords):
        return z3.And(*[z3.And(term(c) >= 0, term(c) < term(n)) for c, n in zip(coords, self.shape)])

    def hook(self, ts, light):
        out = []
        apps = _apps(ts, self.Rs + [self.FL])
        ks = {}
        sz = term(self.size)
        for d in self.Rs:
            for e in apps[d.name()]:
                ks[e.arg(0).get_id()] = e.arg(0)
        fls = apps[self.FL.name()]
        for e in fls:
            ks[e.get_id()] = e
        for k in ks.values():
            inb = z3.And(k >= 0, k < sz)
            cs = [r(k) for r in self.Rs]
            out.append(z3.Implies(inb, z3.And(self.inb(cs), self.FL(*cs) == k)))
        for e in fls:
            cs = e.children()
            out.append(z3.Implies(self.inb(cs), z3.And(e >= 0, e < sz, *[r(e) == c for r, c in zip(self.Rs, cs)])))
        if not light and self.nd == 2:
            # arithmetic form of the position
            n0, n1 = term(self.shape[0]), term(self.shape[1])
            for k in ks.values():
                cs = k.children() if z3.is_app(k) and k.decl().eq(self.FL) else [r(k) for r in self.Rs]
                v = cs[0] + n0 * cs[1] if self.order == 'F' else cs[1] + n1 * cs[0]
                out.append(z3.Implies(z3.And(self.inb(cs), k >= 0, k < sz), k == v))
        for a, b in itertools.combinations(ks.values(), 2):
            ca, cb = [r(a) for r in self.Rs], [r(b) for r in self.Rs]
            seq = list(zip(ca, cb))
            if self.order == 'F':
                seq = list(reversed(seq))
            lt = z3.BoolVal(False)
            for x, y in reversed(seq):
                lt = z3.Or(x < y, z3.And(x == y, lt))
            out.append(z3.Implies(z3.And(a >= 0, a < sz, b >= 0, b < sz), (a < b) == lt))
        return out


def flat_space(shape, order):
    if len(shape) == 1:
        order = 'C'
    for sp in getattr(S, 'spaces', []):
        if sp.order == order and len(sp.shape) == len(shape) and all(
                (a is b) or (not is_sym(a) and not is_sym(b) and a == b)
                or (is_sym(a) or is_sym(b)) and known(term(a) == term(b)) for a, b in zip(sp.shape, shape)):
            return sp
    sp = FlatSpace(shape, order)
    S.spaces.append(sp)
    return sp


class Filter:
    """selection of positions in [0,n)"""
    ndim = 1

    def __init__(self, n, pred):
        self.n = n
        self.pred = pred
        u = core.fresh_name('flt')
        self.name = u
        self.selF = z3.Function(f'sel_{u}', core.I, core.I)
        self.rankF = z3.Function(f'rank_{u}', core.I, core.I)
        self.count = SNum(z3.Int(f'count_{u}'))
        S.facts.append(self.count.t >= 0)
        S.facts.append(z3.Implies(term(n) >= 0, self.count.t <= term(n)))
        S.hooks.append(self.hook)
        self._preds = {}
        self._cf = None
        self._rf = {}
        self._busy = False

    def P(self, x):
        k = x.get_id()
        if k not in self._preds:
            with core.Scope(SBool(x >= 0), SBool(x < term(self.n))):
                v = core.merged(lambda: self.pred(wrap(x)), 'mask')
            self._preds[k] = (x, bterm(v))
        return self._preds[k][1]

    def source(self, t):
        tt = term(t)
        if z3.is_app(tt) and tt.decl().eq(self.rankF):
            return (wrap(tt.arg(0)),)
        return (wrap(self.selF(tt)),)

    def member(self, c):
        x = term(c[0])
        return wrap(z3.And(x >= 0, x < term(self.n), self.P(x)))

    def rank(self, c):
        x = term(c[0])
        if z3.is_app(x) and x.decl().eq(self.selF):
            return wrap(x.arg(0))
        return wrap(self.rankF(x))

    def count_fact(self):
        """count = Sum_x [P(x)]   (definition of the number of selected positions)"""
        if self._cf is None:
            from . import sums
            self._cf = []
            try:
                base = len(S.pc)
                sp = [p for p in S.spaces if p.symbolic and (p.size is self.n or is_sym(self.n) and term(p.size).eq(term(self.n)))]
                if sp:
                    sp = sp[0]
                    dims = list(range(sp.nd))

                    def rec(left, env):
                        if not left:
                            co = tuple(env[d] for d in range(sp.nd))
                            with core.Scope(SBool(sp.inb(co))):
                                v = core.merged(lambda: self.pred(sp.flat(*co)), 'mask')
                            return core.ite(wrap(bterm(v)), 1, 0)
                        d = left[0]
                        return sums.make_sum(0, sp.shape[d], lambda k: rec(left[1:], {**env, d: k}))
                    order = dims if sp.order == 'C' else dims[::-1]
                    v = rec(order, {})
                else:
                    v = sums.make_sum(0, self.n, lambda k: core.ite(wrap(self.P(term(k))), 1, 0))
                self._cf = [z3.ToReal(self.count.t) == rterm(v)]
            except Unsupported as e:
                import os
                if os.environ.get('PV_DEBUG'):
                    print('count_fact', e)
        return self._cf

    def space(self):
        sp = [p for p in S.spaces if p.symbolic and p.nd == 2 and is_sym(self.n) and term(p.size).eq(term(self.n))]
        return sp[0] if sp else None

    def rank_fact(self, x):
        """rank(x) = number of selected positions before x (2-d index spaces): whole earlier lines + the partial line"""
        if x.get_id() in self._rf:
            return self._rf[x.get_id()][1]
        self._rf[x.get_id()] = (x, [])
        sp = self.space()
        if sp is None:
            return []
        from . import sums
        try:
            rc = [r(x) for r in sp.Rs]
            minor, major = (0, 1) if sp.order == 'F' else (1, 0)
            inb = z3.And(x >= 0, x < term(self.n))
            with core.Scope(SBool(inb), SBool(sp.inb(rc))):
                def ind(env):
                    co = tuple(env)
                    with core.Scope(SBool(sp.inb(co))):
                        v = core.merged(lambda: self.pred(sp.flat(*co)), 'mask')
                    return core.ite(wrap(bterm(v)), 1, 0)

                def line(j, hi):
                    def f(k):
                        env = [None, None]
                        env[minor], env[major] = k, j
                        return ind(env)
                    return sums.make_sum(0, hi, f)
                v = sums.make_sum(0, wrap(rc[major]), lambda j: line(j, sp.shape[minor])) + \
                    line(wrap(rc[major]), wrap(rc[minor]))
            self._rf[x.get_id()] = (x, [z3.Implies(z3.And(inb, self.P(x)), z3.ToReal(self.rankF(x)) == rterm(v))])
        except Unsupported:
            pass
        return self._rf[x.get_id()][1]

    def hook(self, ts, light):
        out = []
        apps = _apps(ts, [self.selF, self.rankF])
        n = term(self.n)
        c = self.count.t
        if not light and not self._busy:
            self._busy = True
            try:
                out.extend(self.count_fact())
            finally:
                self._busy = False
        sels = apps[self.selF.name()]
        if not light and not self._busy:
            self._busy = True
            try:
                for x in {e.get_id(): e for e in [e for e in sels] + [e.arg(0) for e in apps[self.rankF.name()]]}.values():
                    out.extend(self.rank_fact(x))
            finally:
                self._busy = False
        rks = apps[self.rankF.name()]
        pos = {}
        for e in sels:
            t = e.arg(0)
            pos[t.get_id()] = t
            out.append(z3.Implies(z3.And(t >= 0, t < c), z3.And(e >= 0, e < n, self.P(e), self.rankF(e) == t)))
        for e in rks:
            x = e.arg(0)
            out.append(z3.Implies(z3.And(x >= 0, x < n, self.P(x)),
                                  z3.And(e >= 0, e < c, self.selF(e) == x)))
            pos[e.get_id()] = e
        for a, b in itertools.combinations(pos.values(), 2):
            out.append(z3.Implies(z3.And(a >= 0, a < c, b >= 0, b < c),
                                  (a < b) == (self.selF(a) < self.selF(b))))
        return out


class ListFilter:
    """concrete selection"""
    ndim = 1

    def __init__(self, coords, ndim):
        self.coords = coords
        self.count = len(coords)
        self.ndim = ndim

    def source(self, t):
        from .arrays import pick
        return tuple(pick([c[d] for c in self.coords], t) for d in range(self.ndim))

    def member(self, c):
        return core.b_or(*[b_and(*[wrap(term(x) == term(y)) for x, y in zip(c, cc)]) for cc in self.coords])

    def rank(self, c):
        v = 0
        for t, cc in enumerate(self.coords):
            v = core.ite(b_and(*[wrap(term(x) == term(y)) for x, y in zip(c, cc)]), t, v)
        return v


class SpaceFilter:
    """filter over a FlatSpace seen through coordinates"""

    def __init__(self, F, space):
        self.F, self.space = F, space
        self.ndim = space.nd
        self.count = F.count

    def source(self, t):
        return self.space.unflat(self.F.source(t)[0])

    def member(self, c):
        k = self.space.flat(*c)
        return b_and(wrap(self.space.inb(c)), self.F.member((k,)))

    def rank(self, c):
        return self.F.rank((self.space.flat(*c),))


def make_filter(n, pred):
    """Filter over [0,n) with reuse of a provably equal one"""
    for F in S.filters:
        if not (F.n is n or known(term(F.n) == term(n), 600)):
            continue
        x = core.bvar('?x')
        with core.Scope(x >= 0, x < n):
            try:
                a = bterm(core.merged(lambda: pred(x), 'mask'))
                b = F.P(x.t)
            except core.PathEnd:
                return F
            same = a.eq(b) or known(a == b, 1500)
        if same:
            return F
    F = Filter(n, pred)
    S.filters.append(F)
    return F


class IsinFilter:
    """selection of the entries of an increasing array E that belong to the increasing array l, where every entry of l is
    an entry of E: the selected entries are exactly l, in order (two increasing enumerations of the same set)"""
    ndim = 1

    def __init__(self, E, l):
        self.E, self.l = E, l
        self.count = l.shape[0]
        self.gE, self.gl = E.getter(), l.getter()
        self.pos = E.props['set'].rankF if 'set' in E.props else E.props['posF']
        self.lpos = l.props['set'].rankF if 'set' in l.props else l.props['posF']
        self.mem = array_member(l)

    def source(self, t):
        return (wrap(self.pos(rterm(self.gl((t,))))),)

    def member(self, c):
        x = term(c[0])
        return wrap(z3.And(x >= 0, x < term(self.E.shape[0]), bterm(self.mem(self.gE((wrap(x),))))))

    def rank(self, c):
        return wrap(self.lpos(rterm(self.gE((c[0],)))))


def isin_filter(E, l):
    if not l.props.get('increasing') or not ('set' in l.props or 'posF' in l.props):
        return None
    for F in S.isinfilters:
        if F.E is E and F.l is l:
            return F
    x = core.bvar('?x')
    mE = array_member(E)
    g = l.getter()
    with core.Scope(x >= 0, x < l.shape[0]):
        try:
            ok = known(bterm(mE(g((x,)))), 3000)
        except core.PathEnd:
            ok = True
    if not ok:
        return None
    F = IsinFilter(E, l)
    S.isinfilters.append(F)
    return F


def compress_index(mask):
    """mask: boolean SArr -> filter over its indices (C order)"""
    g = mask.getter()
    if all(not is_sym(s) for s in mask.shape):
        coords = []
        tot = 1
        for s in mask.shape:
            tot *= s
        if tot <= 64:
            for idx in itertools.product(*[range(s) for s in mask.shape]):
                if bool(g(idx)):
                    coords.append(idx)
            return ListFilter(coords, mask.ndim)
    if mask.ndim == 1 and 'isin' in mask.props:
        F = isin_filter(*mask.props['isin'])
        if F is not None:
            return F
    if mask.ndim == 1:
        return make_filter(mask.shape[0], lambda x: g((x,)))
    sp = flat_space(mask.shape, 'C')
    F = make_filter(sp.size, lambda k: g(sp.unflat(k)))
    return SpaceFilter(F, sp)


# ------------------------------------------------------------------------------------------------ sorted sets
class SortedSet:
    """increasing enumeration of the finite set {x : member(x)}; member given by a python predicate on real terms.
    witnesses(x) may return extra facts implied by membership."""

    def __init__(self, member, kind='f', label='set', inject=None, sources=()):
        self.sources = sources
        u = core.fresh_name('set')
        self.kind = kind
        self.memberfn = member
        self.enumF = z3.Function(f'enum_{u}', core.I, core.R)
        self.rankF = z3.Function(f'srank_{u}', core.R, core.I)
        self.count = SNum(z3.Int(f'card_{u}'))
        self.inject = inject
        self._m = {}
        S.facts.append(self.count.t >= 0)
        S.hooks.append(self.hook)
        S.sets.append(self)

    def member(self, x):
        x = rterm(x)
        k = x.get_id()
        if k not in self._m:
            self._m[k] = (x, bterm(core.merged(lambda: self.memberfn(wrap(x)), 'set membership')))
        return wrap(self._m[k][1])

    def M(self, x):
        return bterm(self.member(x))

    def hook(self, ts, light):
        out = []
        apps = _apps(ts, [self.enumF, self.rankF])
        c = self.count.t
        pos = {}
        for e in apps[self.enumF.name()]:
            t = e.arg(0)
            pos[t.get_id()] = t
            out.append(z3.Implies(z3.And(t >= 0, t < c), z3.And(self.M(e), self.rankF(e) == t)))
        for e in apps[self.rankF.name()]:
            x = e.arg(0)
            out.append(z3.Implies(self.M(x), z3.And(e >= 0, e < c, self.enumF(e) == x)))
            pos[e.get_id()] = e
        if self.sources and any(z3.is_eq(t) and (t.arg(0).eq(c) or t.arg(1).eq(c)) for t in ts):
            # the number of members is pinned (an empty set, say): no value looked up in a source array may be left out
            for es in _apps(ts, list(self.sources)).values():
                for e in es[:6]:
                    x = e.arg(0)
                    out.append(z3.Implies(self.M(x), z3.And(self.rankF(x) >= 0, self.rankF(x) < c, self.enumF(self.rankF(x)) == x)))
        for a, b in itertools.combinations(pos.values(), 2):
            out.append(z3.Implies(z3.And(a >= 0, a < c, b >= 0, b < c),
                                  z3.And((a < b) == (self.enumF(a) < self.enumF(b)),
                                         (a == b) == (self.enumF(a) == self.enumF(b)))))
        return out

    def array(self):
        from .arrays import SArr
        return SArr((self.count,), lambda idx: wrap(self.enumF(term(idx[0]))), 'f',
                    props={'set': self, 'increasing': True})


def array_member(arr):
    """predicate: x occurs in the 1-d array.  Needs a position function: arrays created by the contract layer with
    `increasing` carry one (posF); sorted-set arrays use their set."""
    if 'set' in arr.props:
        return arr.props['set'].member
    if 'member' in arr.props:
        return arr.props['member']
    if 'posF' in arr.props:
        pos = arr.props['posF']
        g = arr.getter()
        n = arr.shape[0]

        def m(x):
            p = wrap(pos(rterm(x)))
            return wrap(z3.And(term(p) >= 0, term(p) < term(n), rterm(g((p,))) == rterm(x)))
        return m
    g = arr.getter()
    n = arr.shape[0]
    if not is_sym(n) and n <= 40:
        return lambda x: core.b_or(*[wrap(rterm(g((t,))) == rterm(x)) for t in range(n)])
    # general array: existential membership through a skolem position function (definition by Hilbert choice)
    u = core.fresh_name('occ')
    pos = z3.Function(f'pos_{u}', core.R, core.I)

    def hook(ts, light):
        # a[i] occurs: pos(a[i]) is a valid position of the same value, for i among the terms in use
        out = []
        for e in _apps(ts, [pos])[pos.name()]:
            pass
        return out
    arr.props['posF'] = pos
    S.occ.append((arr, pos))
    return array_member(arr)


def posfacts(arr, pos, i):
    """definition of the position function at the element i"""
    g = arr.getter()
    n = arr.shape[0]
    x = rterm(g((wrap(i),)))
    p = pos(x)
    return z3.Implies(z3.And(i >= 0, i < term(n)),
                      z3.And(p >= 0, p < term(n), rterm(g((wrap(p),))) == x))
