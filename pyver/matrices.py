"""np.linalg.inv / det: uninterpreted, with the defining equations available to lemmas"""
import itertools
import z3
from . import core
from .core import S, wrap, term, rterm, is_sym, Unsupported, known, SNum
from .arrays import SArr, same


def matrix_inverse(a):
    """X = inv(A): opaque entries; the same matrix (provably equal entries) has the same inverse."""
    if a.ndim < 2:
        raise ValueError("array must be at least two-dimensional")
    g = a.getter()
    if a.ndim == 2 and not is_sym(a.shape[-1]) and not is_sym(a.shape[-2]) and a.shape[-1] <= 6:
        if a.shape[-1] != a.shape[-2]:
            raise ValueError("Last 2 dimensions of the array must be square")
        return concrete_inverse(a)
    for (sh, h, inv) in S.inverses_of:
        if len(sh) == len(a.shape) and all(same(x, y) for x, y in zip(sh, a.shape)):
            qs = [core.bvar('?q') for _ in sh]
            with core.Scope(*[q >= 0 for q in qs], *[q < s for q, s in zip(qs, sh)]):
                from .proof import entails
                if entails(rterm(g(tuple(qs))) == rterm(h(tuple(qs)))):
                    return inv
    f = z3.Function(core.fresh_name('INV'), *([core.I] * a.ndim + [core.R]))
    inv = SArr(a.shape, lambda idx: wrap(f(*[term(i) for i in idx])), 'f')
    S.inverses_of.append((a.shape, g, inv))
    # symmetric input => symmetric inverse (trusted linear algebra fact)
    qs = [core.bvar('?q') for _ in a.shape]
    qt = qs[:-2] + [qs[-1], qs[-2]]
    if same(a.shape[-1], a.shape[-2]):
        with core.Scope(*[q >= 0 for q in qs], *[q < s for q, s in zip(qs, a.shape)]):
            from .proof import entails
            sym = entails(rterm(g(tuple(qs))) == rterm(g(tuple(qt))))
        if sym:
            inv0 = inv

            def el(idx):
                i, j = term(idx[-2]), term(idx[-1])
                b = [term(x) for x in idx[:-2]]
                lo, hi = z3.If(i <= j, i, j), z3.If(i <= j, j, i)
                return wrap(f(*(b + [lo, hi])))
            inv = SArr(a.shape, el, 'f')
            S.inverses_of[-1] = (a.shape, g, inv)
    return inv


def _cells(a):
    n = a.shape[-1]
    return [[z3.simplify(rterm(a.at(i, j))) for j in range(n)] for i in range(n)]


def _perm_match(m, h):
    """p with m[i][j] == h[p(i)][p(j)] for all i, j (syntactically), or None"""
    n = len(m)
    for p in itertools.permutations(range(n)):
        if all(m[i][j].eq(h[p[i]][p[j]]) for i in range(n) for j in range(n)):
            return p
    return None


def concrete_inverse(a):
    """inverse of an n x n matrix, n a literal: opaque entries; equal up to relabelling => same inverse relabelled; the inverse
    of an inverse is the matrix; symmetric => symmetric inverse (trusted facts of linear algebra)"""
    from .arrays import from_list
    n = a.shape[-1]
    m = _cells(a)
    if n == 1:
        return from_list([[core.div_total(1, wrap(m[0][0]))]])
    for (h, inv) in S.small_inverses:
        if len(h) != n:
            continue
        for x, y in ((h, inv), (inv, h)):
            p = _perm_match(m, x)
            if p is not None:
                return from_list([[wrap(y[p[i]][p[j]]) for j in range(n)] for i in range(n)])
    sym = all(m[i][j].eq(m[j][i]) for i in range(n) for j in range(i))
    tag = core.fresh_name('INV')
    v = {}
    for i in range(n):
        for j in range(n):
            v[i, j] = z3.Real(f'{tag}_{i}_{j}') if not sym or i <= j else v[j, i]
    inv = [[v[i, j] for j in range(n)] for i in range(n)]
    S.small_inverses.append((m, inv))
    return from_list([[wrap(t) for t in r] for r in inv])


def det_list(m):
    n = len(m)
    if n == 0:
        return 1
    if n == 1:
        return m[0][0]
    r = 0
    for c in range(n):
        minor = [row[:c] + row[c + 1:] for row in m[1:]]
        v = m[0][c] * det_list(minor)
        r = r + v if c % 2 == 0 else r - v
    return r


def det(a):
    from .arrays import as_arr
    a = as_arr(a)
    if not is_sym(a.shape[-1]) and a.ndim == 2 and a.shape[0] <= 4:
        return det_list([[a.at(i, j) for j in range(a.shape[0])] for i in range(a.shape[0])])
    raise Unsupported("determinant of a symbolic-size matrix")
