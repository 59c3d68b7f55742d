"""Composite Newton-Cotes integration: whole panels of the requested order, remaining points by the matching lower order."""
from fractions import Fraction
from math import comb
from pyver.api import contract

M = 'seyfert.numeric.integration:CompositeNewtonCotesIntegrator'
FNS = [M.replace(':', '.') + '.' + f for f in ('__init__', 'checkValid', 'checkAlmostEqualSpacing', 'computeIntegral', 'doIntegrate')]


def nc_weights(q):
    """closed Newton-Cotes weights on 0..q: the unique ones exact on 1, t, ..., t^q (independent exact derivation)"""
    # solve sum_d w_d d^p = q^(p+1)/(p+1)
    n = q + 1
    A = [[Fraction(d) ** p for d in range(n)] + [Fraction(q) ** (p + 1) / (p + 1)] for p in range(n)]
    for i in range(n):
        piv = next(r for r in range(i, n) if A[r][i] != 0)
        A[i], A[piv] = A[piv], A[i]
        A[i] = [x / A[i][i] for x in A[i]]
        for r in range(n):
            if r != i:
                A[r] = [x - A[r][i] * y for x, y in zip(A[r], A[i])]
    return [A[i][-1] for i in range(n)]


def uniform_grid(c, n, native):
    x0 = c.real('x0', conc=(-2, 2))
    dx = c.real('dx', positive=True, conc=(0.05, 1.5))
    if native:
        import numpy as np
        return x0 + dx * np.arange(n), dx
    from pyver.arrays import SArr
    return SArr((n,), lambda i: x0 + dx * i[0], 'f'), dx


def expected(c, y, dx, q, bins, ex):
    w = [c.frac(v.numerator, v.denominator) for v in nc_weights(q)]
    tot = sum(w[d] * c.sum(0, bins, lambda k: y(q * k + d)) for d in range(q + 1))
    if ex:
        we = [c.frac(v.numerator, v.denominator) for v in nc_weights(ex)]
        tot = tot + sum(we[d] * y(q * bins + d) for d in range(ex + 1))
    return dx * tot


def rule(c, q):
    ex = c.choice('excess', list(range(q)))
    bins = c.int('panels', 1 if ex == 0 else 0, conc=(0 if ex else 1, 7))
    n = q * bins + 1 + ex
    x, dx = uniform_grid(c, n, c.is_native())
    return x, dx, n, bins, ex


@contract('P12', FNS, weight=3)
def composite_rule_1d(c):
    """integral of one sampled function, every order 1..6, any number of panels and remaining points"""
    q = c.choice('order', [1, 2, 3, 4, 5, 6])
    x, dx, n, bins, ex = rule(c, q)
    y = c.array('y', (n,))
    r = c.target(M)(x=x, y=y, order=q).computeIntegral()
    c.ensure('rule', c.eq(r, expected(c, lambda k: c.get(y, k), dx, q, bins, ex)))


@contract('P12', FNS, weight=3)
def composite_rule_last_axis(c):
    """same along the last axis of a 2-d array: one value per row"""
    q = c.choice('order', [1, 2, 3, 4, 5, 6])
    x, dx, n, bins, ex = rule(c, q)
    m = c.int('rows', 1, conc=(1, 4))
    y = c.array('y', (m, n))
    r = c.target(M)(x=x, y=y, order=q, axis=-1).computeIntegral()
    c.ensure('shape', c.shape_eq(r, (m,)))
    c.forall('rule', [m], lambda i: c.eq(c.get(r, i), expected(c, lambda k: c.get(y, i, k), dx, q, bins, ex)))


@contract('P12', FNS, weight=3)
def composite_rule_first_axis(c):
    """same along the first axis"""
    q = c.choice('order', [1, 2, 3, 4, 5, 6])
    x, dx, n, bins, ex = rule(c, q)
    m = c.int('cols', 1, conc=(1, 4))
    y = c.array('y', (n, m))
    r = c.target(M)(x=x, y=y, order=q, axis=0).computeIntegral()
    c.ensure('shape', c.shape_eq(r, (m,)))
    c.forall('rule', [m], lambda i: c.eq(c.get(r, i), expected(c, lambda k: c.get(y, k, i), dx, q, bins, ex)))


@contract('P12', FNS, weight=8, bound='orders 2, 3 and 5 of the axis of a 3-d array; every grid, panel count, remainder and shape')
def composite_rule_of_a_cube(c):
    """same along any axis of a 3-d array, counted from either end: one value per remaining pair of indices, in their order"""
    q = c.choice('order', [2, 3, 5])
    x, dx, n, bins, ex = rule(c, q)
    a, b = c.int('rows', 1, conc=(1, 4)), c.int('cols', 1, conc=(1, 4))
    axis = c.choice('axis', [0, 1, 2])
    shape = [a, b]
    shape.insert(axis, n)
    y = c.array('y', tuple(shape))
    r = c.target(M)(x=x, y=y, order=q, axis=-2 if axis == 1 else axis).computeIntegral()
    c.ensure('shape', c.shape_eq(r, (a, b)))

    def value(i, j, k):
        ix = [i, j]
        ix.insert(axis, k)
        return c.get(y, *ix)
    c.forall('rule', [a, b], lambda i, j: c.eq(c.get(r, i, j), expected(c, lambda k: value(i, j, k), dx, q, bins, ex)))


@contract('P12', FNS)
def rejects_bad_order(c):
    """an order outside 1..6 is rejected"""
    q = c.int('order', conc=(-3, 12))
    c.require(c.or_(q <= 0, q >= 7))
    n = c.int('n', 2, conc=(2, 30))
    x, dx = uniform_grid(c, n, c.is_native())
    y = c.array('y', (n,))
    c.raises('rejected', Exception, lambda: c.target(M)(x=x, y=y, order=q))


@contract('P12', FNS)
def rejects_mismatch(c):
    """samples and grid of different lengths are rejected"""
    n = c.int('n', 2, conc=(2, 30))
    m = c.int('m', 2, conc=(2, 30))
    c.require(n != m)
    x, dx = uniform_grid(c, n, c.is_native())
    y = c.array('y', (m,))
    c.raises('rejected', Exception, lambda: c.target(M)(x=x, y=y, order=2))
