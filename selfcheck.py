"""Cross-check of the assumed contracts on numpy/pandas/scipy (the shims) against the installed libraries.

Each entry of TABLE is an expression over named inputs. It is evaluated twice on the same random values:
  * natively, by the real library;
  * by the engine: the expression's text is instrumented exactly as /repo's text is and executed with the shims, on arrays of
    symbolic shape and symbolic entries ("general"), which are then specialised to the random values; or, where the shim needs
    its operands known ("ground"), on arrays with these entries from the start.
Every entry of the native result must be provably equal to the engine's. Refuted = the shim misdescribes the library (exit 1).
"undecided" = the shim gives no answer (never wrong, only weak); reported.

usage: selfcheck.py [--trials N] [--only SUBSTRING] [-v]"""
import argparse
import ast
import math
import os
import random
import sys
import types
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import warnings
warnings.filterwarnings('ignore')
import numpy
import pandas
import scipy.integrate
import scipy.interpolate
import scipy.special
from pyver import api, core, instrument, arrays, frames

# (expression, inputs). An input is  kind:shape  with kind f (reals), i (integers), b (booleans), p (positive reals),
# s (increasing reals), q (symmetric positive definite); shapes use dimension names (equal names = equal sizes) or numbers
TABLE = [
    ('np.zeros((a.shape[0], 3))', 'a=f:n'), ('np.ones(a.shape)', 'a=f:n,m'), ('np.full((2, a.shape[0]), 3.5)', 'a=f:n'),
    ('np.zeros_like(a)', 'a=f:n,m'), ('np.ones_like(a)', 'a=f:n,m'), ('np.full_like(a, 2.5)', 'a=f:n'),
    ('np.eye(a.shape[0])', 'a=f:n'), ('np.identity(a.shape[0])', 'a=f:n'), ('np.eye(a.shape[0], k=1)', 'a=f:n'),
    ('np.arange(a.shape[0])', 'a=f:n'), ('np.arange(2, 2 + a.shape[0])', 'a=f:n'), ('np.arange(1, 8, 3)', ''),
    ('np.arange(5, 0, -1)', ''), ('np.arange(0, 1, 0.25)', ''),
    ('np.linspace(1., 4., a.shape[0] + 1)', 'a=f:n'), ('np.linspace(x, y, 5)', 'x=f: y=f:'),
    ('np.linspace(x, y, 4, endpoint=False)', 'x=f: y=f:'), ('np.logspace(0, 2, 3)', ''), ('np.logspace(x, y, 3)', 'x=f: y=f:'),
    ('np.indices((2, 3))', ''),
    ('np.ravel(a)', 'a=f:n,m'), ('a.ravel(order="F")', 'a=f:n,m'), ('np.ravel(a)', 'a=f:n,m,k'), ('a.flatten()', 'a=f:n,m'),
    ('np.ravel(a.T)', 'a=f:n,m'), ('np.reshape(a, (a.shape[1], a.shape[0]))', 'a=f:n,m'),
    ('a.reshape(a.shape[0], -1)', 'a=f:n,m,k'), ('np.reshape(a, (2, 3))', 'a=f:6'), ('a.reshape(2, -1)', 'a=f:4,3'),
    ('np.reshape(a, (3, 2), order="F")', 'a=f:6'), ('a.reshape((2, 2, 2), order="F").ravel()', 'a=f:8'),
    ('np.squeeze(a)', 'a=f:n,1,m'), ('np.squeeze(a, axis=0)', 'a=f:1,n'), ('np.expand_dims(a, axis=1)', 'a=f:n,m'),
    ('np.expand_dims(a, axis=-1)', 'a=f:n,m'), ('a[np.newaxis, :, np.newaxis]', 'a=f:n'), ('a[:, np.newaxis] * b', 'a=f:n b=f:m'),
    ('np.sum(a)', 'a=f:n,m'), ('np.sum(a, axis=0)', 'a=f:n,m'), ('a.sum(axis=-1)', 'a=f:n,m,k'), ('np.sum(a, axis=(0, 2))', 'a=f:n,m,k'),
    ('np.sum(a, axis=1, keepdims=True)', 'a=f:n,m'), ('np.mean(a)', 'a=f:n'), ('a.mean(axis=0)', 'a=f:n,m'),
    ('np.count_nonzero(a)', 'a=b:n'), ('np.count_nonzero(a > 0)', 'a=f:n'), ('np.all(a)', 'a=b:n,m'), ('np.any(a)', 'a=b:n,m'),
    ('np.all(a, axis=0)', 'a=b:n,m'), ('np.any(a, axis=1)', 'a=b:n,m'), ('np.sum(a)', 'a=b:n'),
    ('np.max(a)', 'a=f:n'), ('np.min(a)', 'a=f:n'), ('a.max()', 'a=f:n,m'), ('a.min(axis=0)', 'a=f:n,m'), ('np.amax(a, axis=1)', 'a=f:n,m'),
    ('np.argmin(a)', 'a=f:n'), ('np.argmax(a)', 'a=f:n'), ('np.argmin(np.abs(a - x))', 'a=f:n x=f:'),
    ('np.sort(a)', 'a=f:4'), ('np.argsort(a)', 'a=f:4'), ('a[np.argsort(a)]', 'a=f:4'),
    ('np.matmul(a, b)', 'a=f:n,m b=f:m,k'), ('a @ b', 'a=f:n,m b=f:m'), ('a @ b', 'a=f:p,n,m b=f:p,m,k'), ('a @ b', 'a=f:n,m b=f:p,m,k'),
    ('a @ b', 'a=f:m b=f:m'), ('a @ b', 'a=f:m b=f:m,k'), ('np.matmul(a, b)', 'a=f:p,n,m b=f:m'),
    ('np.dot(a, b)', 'a=f:n,m b=f:m,k'), ('np.dot(a, b)', 'a=f:n b=f:n'), ('a.dot(b)', 'a=f:n,m b=f:m'), ('np.outer(a, b)', 'a=f:n b=f:m'),
    ('np.einsum("ij,jk->ik", a, b)', 'a=f:n,m b=f:m,k'), ('np.einsum("lij,ljk->lik", a, b)', 'a=f:p,n,m b=f:p,m,k'),
    ('np.einsum("ii", a)', 'a=f:n,n'), ('np.einsum("ij,ij", a, b)', 'a=f:n,m b=f:n,m'), ('np.einsum("i,j->ij", a, b)', 'a=f:n b=f:m'),
    ('np.einsum("lij,lj,l->i", a, b, d)', 'a=f:p,n,m b=f:p,m d=f:p'), ('np.einsum("ij->ji", a)', 'a=f:n,m'),
    ('np.einsum("ij,kj->ki", a, b)', 'a=f:n,m b=f:k,m'), ('np.einsum("ij,jk", a, b)', 'a=f:n,m b=f:m,k'),
    ('np.stack([a, b])', 'a=f:n b=f:n'), ('np.stack([a, b], axis=1)', 'a=f:n b=f:n'), ('np.stack([a, b], axis=-1)', 'a=f:n,m b=f:n,m'),
    ('np.moveaxis(a, 0, -1)', 'a=f:n,m,k'), ('np.moveaxis(a, -1, 0)', 'a=f:n,m,k'), ('np.swapaxes(a, 0, 2)', 'a=f:n,m,k'),
    ('np.transpose(a)', 'a=f:n,m,k'), ('np.transpose(a, (0, 2, 1))', 'a=f:n,m,k'), ('a.transpose(1, 2, 0)', 'a=f:n,m,k'), ('a.T', 'a=f:n,m'),
    ('np.concatenate((a, b))', 'a=f:n b=f:m'), ('np.concatenate([a, b], axis=1)', 'a=f:n,m b=f:n,k'),
    ('np.concatenate([a, b], axis=-1)', 'a=f:p,n,m b=f:p,n,k'), ('np.hstack([a, b])', 'a=f:n b=f:m'), ('np.hstack([a, b])', 'a=f:n,m b=f:n,k'),
    ('np.vstack([a, b])', 'a=f:n,m b=f:k,m'), ('np.vstack([a, b])', 'a=f:n b=f:n'),
    ('np.block([[a, b], [d, e]])', 'a=f:n,m b=f:n,k d=f:p,m e=f:p,k'), ('np.block([[a, b], [d, e]])', 'a=f:q,n,m b=f:q,n,k d=f:q,p,m e=f:q,p,k'),
    ('np.r_[a, b]', 'a=f:n b=f:m'), ('np.array([a, b])', 'a=f:n b=f:n'), ('np.array([[x, y], [y, x]])', 'x=f: y=f:'),
    ('np.array_split(a, 2)[1]', 'a=f:5'), ('np.array_split(a, 3)[0]', 'a=f:7,2'),
    ('np.diff(a)', 'a=f:n'), ('np.diff(a, axis=0)', 'a=f:n,m'), ('np.diff(a)', 'a=f:n,m'),
    ('np.take(a, [2, 0, 1])', 'a=f:3'), ('np.take(a, [1, 0], axis=1)', 'a=f:n,2'), ('a.take([0, 0], axis=0)', 'a=f:n,m'),
    ('np.where(a > 0, a, -a)', 'a=f:n,m'), ('np.where(a > b, 1.0, b)', 'a=f:n b=f:n'), ('a[np.where(a > 0)]', 'a=f:4'),
    ('np.where(a > 0)[0]', 'a=f:4'), ('np.nonzero(a)[0]', 'a=b:4'),
    ('np.diag(a)', 'a=f:n'), ('np.diag(a)', 'a=f:n,n'), ('np.diag(a, k=1)', 'a=f:3,3'), ('np.triu(a)', 'a=f:n,n'), ('np.tril(a, -1)', 'a=f:n,n'),
    ('a[np.triu_indices(a.shape[0])]', 'a=f:n,n'), ('a[np.tril_indices(a.shape[0], -1)]', 'a=f:n,n'),
    ('a[:, np.triu_indices(3)[0], np.triu_indices(3)[1]]', 'a=f:n,3,3'), ('np.triu_indices(3)[1]', ''), ('np.tril_indices(3)[0]', ''),
    ('np.isin(a, b)', 'a=i:4 b=i:3'), ('a[np.isin(a, b)]', 'a=i:4 b=i:3'), ('a[~np.isin(a, b)]', 'a=i:4 b=i:3'),
    ('np.clip(a, -0.5, 0.5)', 'a=f:n'), ('np.clip(x, 0, y)', 'x=f: y=p:'),
    ('np.array_equal(a, b)', 'a=f:n b=f:n'), ('np.array_equal(a, a + 0)', 'a=f:n'), ('np.isclose(a, b)', 'a=f:n b=f:n'),
    ('np.allclose(a, a * (1 + 1e-9))', 'a=f:n'), ('np.allclose(a, a + 1)', 'a=f:n'),
    ('np.linalg.inv(a)', 'a=q:2,2'), ('np.linalg.inv(a)', 'a=q:3,3'), ('np.linalg.det(a)', 'a=f:3,3'), ('np.linalg.inv(a) @ a', 'a=q:3,3'),
    ('np.trace(a)', 'a=f:n,n'), ('a.diagonal()', 'a=f:n,n'),
    ('np.repeat(a, 2)', 'a=f:n'), ('np.repeat(a, 3, axis=0)', 'a=f:n,m'), ('np.repeat(a[np.newaxis, :, :], 2, axis=0)', 'a=f:n,m'),
    ('np.piecewise(a, [a < 0, a >= 0], [lambda t: -t, lambda t: 2 * t])', 'a=f:n'),
    ('np.piecewise(a, [a < 0], [0.5, lambda t: t])', 'a=f:n'),
    ('np.unique(a)', 'a=i:5'), ('np.intersect1d(a, b)', 'a=i:4 b=i:4'), ('np.union1d(a, b)', 'a=i:3 b=i:3'), ('np.setdiff1d(a, b)', 'a=i:4 b=i:3'),
    ('np.unique(a, return_index=True)[1]', 'a=i:4'),
    ('np.polyfit(a, b, 1)', 'a=s:4 b=f:4'), ('np.polyfit(a, 3 * a + 1, 1)', 'a=s:4'),
    ('np.abs(a)', 'a=f:n'), ('np.sqrt(a) ** 2', 'a=p:n'), ('np.square(a)', 'a=f:n'), ('np.negative(a)', 'a=f:n'), ('np.floor(a)', 'a=f:n'),
    ('np.ceil(a)', 'a=f:n'), ('np.add(a, b)', 'a=f:n,m b=f:m'), ('np.subtract(a, b)', 'a=f:n b=f:n'), ('np.multiply(a, b)', 'a=f:n,m b=f:n,m'),
    ('np.divide(a, b)', 'a=f:n b=p:n'), ('np.power(a, 2)', 'a=f:n'), ('a ** 3', 'a=f:n'), ('a ** -2', 'a=p:n'), ('2 ** x', 'x=i:'),
    ('np.maximum(a, b)', 'a=f:n b=f:n'), ('np.minimum(a, 0.1)', 'a=f:n'), ('np.logical_and(a, b)', 'a=b:n b=b:n'),
    ('np.logical_or(a, ~b)', 'a=b:n b=b:n'), ('np.logical_not(a)', 'a=b:n'), ('a & b | ~a', 'a=b:n b=b:n'), ('np.isnan(a)', 'a=f:n'),
    ('np.isfinite(a)', 'a=f:n'), ('np.size(a)', 'a=f:n,m'), ('np.ndim(a)', 'a=f:n,m'), ('np.atleast_1d(x)', 'x=f:'),
    ('np.round(a * 3)', 'a=f:n'), ('round(x * 7)', 'x=f:'), ('round(x, 2)', 'x=f:'), ('a.astype(int)', 'a=f:n'), ('a.astype(float)', 'a=i:n'), ('int(x)', 'x=f:'),
    ('a // 1', 'a=f:n'), ('x // 3', 'x=i:'), ('x % 3', 'x=i:'), ('a % 2', 'a=i:n'), ('np.rad2deg(x) / np.pi', 'x=f:'), ('np.deg2rad(x) / np.pi', 'x=f:'),
    ('np.exp(np.log(a))', 'a=p:n'), ('10 ** np.log10(a)', 'a=p:n'), ('np.log10(a * b) - np.log10(a)', 'a=p:n b=p:n') ,
    ('np.exp(a) * np.exp(-a)', 'a=f:n'), ('np.sin(a) ** 2 + np.cos(a) ** 2', 'a=f:n'),
    # indexing and writing
    ('a[1:-1]', 'a=f:4'), ('a[::2]', 'a=f:n'), ('a[::-1]', 'a=f:n'), ('a[-1]', 'a=f:n,m'), ('a[..., 0]', 'a=f:n,m,k'), ('a[:, 1]', 'a=f:n,2'),
    ('a[-3:]', 'a=f:2'), ('a[5:]', 'a=f:n'), ('a[1:1]', 'a=f:n'), ('a[[0, -1]]', 'a=f:n'), ('a[[0, 1], [1, 0]]', 'a=f:2,2'),
    ('a[a > 0]', 'a=f:4'), ('a[:, b]', 'a=f:n,3 b=b:3'), ('a[b][:, b]', 'a=f:3,3 b=b:3'), ('a[np.ix_([0, 1], [1])]', 'a=f:2,2'),
    ('a[0, :, 1]', 'a=f:n,m,2'), ('a[:, [1, 0], :]', 'a=f:n,2,m'), ('len(a)', 'a=f:n,m'), ('a.shape', 'a=f:n,m'), ('a.size', 'a=f:n,m'),
    ('w(a)', 'a=f:n,3 !w=def w(t):\n    t[:, 1] = 7.0\n    return t'),
    ('w(a)', 'a=f:n,m !w=def w(t):\n    u = t.copy()\n    t[t > 0] = 0\n    return u - t'),
    ('w(a)', 'a=f:n,m !w=def w(t):\n    v = t[0]\n    v += 1\n    return t'),
    ('w(a)', 'a=f:n,n !w=def w(t):\n    for i in range(t.shape[0]):\n        for j in range(i, t.shape[0]):\n            t[j, i] = t[i, j]\n    return t'),
    ('w(a)', 'a=f:n,m !w=def w(t):\n    v = t.T\n    v[1] = 0\n    return t'),
    ('w(a)', 'a=f:n !w=def w(t):\n    s = 0\n    for x in t:\n        s += x * x\n    return s'),
    ('w(a)', 'a=f:n !w=def w(t):\n    return [x + i for i, x in enumerate(t)]'),
    ('w(a)', 'a=f:n,m !w=def w(t):\n    t[:-1] = t[1:]\n    return t'),
    ('w(a)', 'a=f:n,m !w=def w(t):\n    t[...] = t * 2\n    t /= 4\n    return t'),
    ('w(a)', 'a=f:3,3 !w=def w(t):\n    np.fill_diagonal(t, 0)\n    return t'),
    ('w(a)', 'a=f:n,n !w=def w(t):\n    t[np.triu_indices(t.shape[0], 1)] = 0\n    return t'),
    # scipy
    ('si.simps(a, b)', 'a=f:5 b=s:5'), ('si.trapz(a, b)', 'a=f:n b=s:n'), ('np.trapz(a, b)', 'a=f:n b=s:n'), ('np.trapz(a, dx=0.5)', 'a=f:n'),
    ('sp.comb(5, 2)', ''), ('si.newton_cotes(4, 1)[0]', ''), ('si.newton_cotes(2, 1)[0]', ''), ('si.newton_cotes(6, 1)[0]', ''),
    # pandas
    ('pd.DataFrame(a, index=L, columns=L).loc["y", "x"]', 'a=f:3,3'), ('pd.DataFrame(a, index=L, columns=L).loc[["z", "x"], ["z", "x"]]', 'a=f:3,3'),
    ('pd.DataFrame(a, index=L, columns=L).drop(index="y", columns="y")', 'a=f:3,3'), ('pd.DataFrame(a, index=L, columns=L).loc["y"]', 'a=f:3,3'),
    ('pd.DataFrame(a, index=L, columns=L)["y"]', 'a=f:3,3'), ('pd.DataFrame(a, index=L, columns=L).T', 'a=f:3,3'),
    ('pd.DataFrame(a, index=L, columns=L).iloc[1]', 'a=f:3,3'), ('pd.DataFrame(a, index=L, columns=L).iloc[0, 2]', 'a=f:3,3'),
    ('pd.DataFrame(a, index=L, columns=L).iloc[:2, 1:]', 'a=f:3,3'),
    ('pd.DataFrame(a, index=L, columns=L).add(pd.DataFrame(b, index=["z", "t"], columns=["z", "t"]), fill_value=0).fillna(0)', 'a=f:3,3 b=f:2,2'),
    ('(pd.DataFrame(a, index=L, columns=L) + pd.DataFrame(b, index=L[::-1], columns=L[::-1])).fillna(0)', 'a=f:3,3 b=f:3,3'),
    ('(pd.DataFrame(a, index=L, columns=L) - pd.DataFrame(b, index=["z", "t"], columns=["x", "z"])).fillna(-1)', 'a=f:3,3 b=f:2,2'),
    ('pd.DataFrame(a, index=L, columns=L).reindex(index=["z", "w"], columns=["x", "w"]).fillna(9)', 'a=f:3,3'),
    ('pd.DataFrame(a, index=L, columns=L).sum()', 'a=f:3,3'), ('pd.DataFrame(a, index=L, columns=L).sum(axis=1)', 'a=f:3,3'),
    ('pd.DataFrame(a, index=L, columns=L).rename(index={"x": "u"}, columns={"y": "v"})', 'a=f:3,3'),
    ('pd.DataFrame(a, index=["z", "x", "y"], columns=["y", "z", "x"]).sort_index()', 'a=f:3,3'),
    ('pd.DataFrame(a, index=["z", "x", "y"], columns=["y", "z", "x"]).sort_index(axis=1)', 'a=f:3,3'),
    ('pd.DataFrame({"u": a, "v": a * 2})', 'a=f:3'), ('pd.DataFrame({"u": a, "v": a * 2}).set_index("u").loc[:, "v"].values', 'a=f:3'),
    ('pd.DataFrame(a, index=L, columns=L).abs()', 'a=f:3,3'), ('pd.DataFrame(a, index=L, columns=L).values', 'a=f:3,3'),
    ('2 * pd.DataFrame(a, index=L, columns=L) - 1', 'a=f:3,3'), ('pd.DataFrame(a, index=L, columns=L) / b', 'a=f:3,3 b=p:3'),
    ('pd.Series(a, index=L)["z"]', 'a=f:3'), ('pd.Series(a, index=L) + pd.Series(b, index=["z", "y", "x"])', 'a=f:3 b=f:3'),
    ('pd.Series(a, index=L).drop("y")', 'a=f:3'), ('pd.Series(a, index=L).loc[["z", "x"]]', 'a=f:3'), ('pd.Series(a, index=L).sum()', 'a=f:3'),
    ('pd.concat([pd.DataFrame(a, columns=["u", "v"]), pd.DataFrame(b, columns=["u", "v"])]).values', 'a=f:3,2 b=f:2,2'),
    ('pd.concat([pd.Series(a, index=L), pd.Series(b, index=L)], axis=1).values', 'a=f:3 b=f:3'),
    ('pd.Index(L).difference(["y"]).tolist()', ''), ('pd.Index(["z", "x"]).union(["y"]).tolist()', ''), ('pd.Index(L).intersection(["y", "q"]).tolist()', ''),
    ('pd.Index(L).get_loc("y")', ''), ('pd.Index(L).isin(["y", "w"])', ''),
    ('w(a)', 'a=f:3,3 !w=def w(t):\n    d = pd.DataFrame(t, index=L, columns=L)\n    d.loc["x", "z"] = 5.0\n    d["y"] = 1.0\n    return d'),
    ('w(a)', 'a=f:3,3 !w=def w(t):\n    d = pd.DataFrame(t, index=L, columns=L)\n    e = d.copy()\n    e.loc["x", :] += 1\n    return d'),
    ('w(a)', 'a=f:3,3 !w=def w(t):\n    d = pd.DataFrame(t, index=L, columns=L)\n    return [(i, r["y"]) for i, r in d.iterrows()][1][1]'),
    # python
    ('sorted([x, y, x + 1])', 'x=f: y=f:'), ('max(x, y, 0)', 'x=f: y=f:'), ('min([x, y])', 'x=f: y=f:'), ('sum([x, y, 1])', 'x=f: y=f:'), ('abs(x)', 'x=f:'),
    ('divmod(7, 2)', ''), ('all([x > 0, y > 0])', 'x=f: y=f:'), ('any(t > 0 for t in a)', 'a=f:n'), ('[i for i in range(6) if i % 2]', ''),
    ('list(zip(a, b))', 'a=f:3 b=f:3'), ('list(reversed(a))', 'a=f:3'), ('list(itertools.product("ab", [1, 2]))', ''),
    ('list(itertools.combinations_with_replacement("abc", 2))', ''), ('math.sqrt(x) ** 2', 'x=p:'), ('math.isclose(x, y)', 'x=f: y=f:'),
]


class Unknown(Exception):
    pass


REALS = {'sqrt': lambda x: math.sqrt(x), 'exp': math.exp, 'log': math.log, 'log10': math.log10, 'exp10': lambda x: 10. ** x, 'sin': math.sin,
         'cos': math.cos, 'tan': math.tan, 'pow': lambda a, b: float(a) ** float(b)}


def evaluate(t, env, bound=()):
    """value of an engine term under the drawn inputs: sums are unfolded by their definition, transcendental functions computed;
    Unknown where the term contains a symbol the engine leaves undefined"""
    z3 = core.z3
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t) or z3.is_false(t):
        return z3.is_true(t)
    if not z3.is_app(t):
        raise Unknown(str(t))
    d, k = t.decl(), t.decl().kind()
    ev = lambda x: evaluate(x, env, bound)
    ch = t.children()
    if k == z3.Z3_OP_UNINTERPRETED:
        n = d.name()
        if n in core.S.sum_registry:
            from pyver import sums
            kk, lo, hi, body = sums.instance(t)
            tot = Fraction(0)
            for i in range(ev(lo), ev(hi)):
                env[kk.decl().name()] = i
                tot = tot + ev(body)
            return tot
        if n in env:
            v = env[n]
            if callable(v):
                return v(*[ev(x) for x in ch])
            return v
        if n == 'pi':
            return math.pi
        if n in REALS:
            return REALS[n](*[ev(x) for x in ch])
        raise Unknown(n)
    if k == z3.Z3_OP_ITE:
        return ev(ch[1]) if ev(ch[0]) else ev(ch[2])
    if k == z3.Z3_OP_AND:
        return all(ev(x) for x in ch)
    if k == z3.Z3_OP_OR:
        return any(ev(x) for x in ch)
    if k == z3.Z3_OP_IMPLIES:
        return not ev(ch[0]) or ev(ch[1])
    vs = [ev(x) for x in ch]
    if k == z3.Z3_OP_NOT:
        return not vs[0]
    if k == z3.Z3_OP_ADD:
        r = vs[0]
        for v in vs[1:]:
            r = r + v
        return r
    if k == z3.Z3_OP_MUL:
        r = vs[0]
        for v in vs[1:]:
            r = r * v
        return r
    if k == z3.Z3_OP_SUB:
        r = vs[0]
        for v in vs[1:]:
            r = r - v
        return r
    if k == z3.Z3_OP_UMINUS:
        return -vs[0]
    if k == z3.Z3_OP_DIV:
        if vs[1] == 0:
            raise Unknown('division by zero')
        return (Fraction(vs[0]) / Fraction(vs[1])) if not isinstance(vs[0], float) and not isinstance(vs[1], float) else vs[0] / vs[1]
    if k == z3.Z3_OP_IDIV:
        return vs[0] // vs[1]
    if k == z3.Z3_OP_MOD:
        return vs[0] % vs[1]
    if k == z3.Z3_OP_POWER:
        return vs[0] ** vs[1]
    if k == z3.Z3_OP_TO_REAL:
        return Fraction(vs[0])
    if k == z3.Z3_OP_TO_INT:
        return math.floor(vs[0])
    if k == z3.Z3_OP_EQ:
        return vs[0] == vs[1]
    if k == z3.Z3_OP_DISTINCT:
        return len(set(vs)) == len(vs)
    if k == z3.Z3_OP_LE:
        return vs[0] <= vs[1]
    if k == z3.Z3_OP_LT:
        return vs[0] < vs[1]
    if k == z3.Z3_OP_GE:
        return vs[0] >= vs[1]
    if k == z3.Z3_OP_GT:
        return vs[0] > vs[1]
    raise Unknown(str(d))


def inputs_of(spec):
    out, defs = [], ''
    spec, _, d = spec.partition('!w=')
    if d:
        defs = d
    for part in spec.split():
        n, _, r = part.partition('=')
        k, _, sh = r.partition(':')
        out.append((n, k, [s for s in sh.split(',') if s]))
    return out, defs


def draw(ins, r):
    dims, vals = {}, {}
    for n, k, sh in ins:
        shape = tuple(int(s) if s.isdigit() else dims.setdefault(s, r.randint(2, 4)) for s in sh)
        size = int(numpy.prod(shape)) if shape else 1
        if k in 'fp':
            v = [Fraction(r.randint(1 if k == 'p' else -12, 12), 4) for _ in range(size)]
        elif k == 'i':
            v = [r.randint(-3, 4) for _ in range(size)]
        elif k == 'b':
            v = [r.random() < .5 for _ in range(size)]
        elif k == 's':
            v = sorted(Fraction(x, 4) for x in r.sample(range(-12, 13), size))
        elif k == 'q':
            m = shape[0]
            b = [[r.randint(-2, 2) for _ in range(m)] for _ in range(m)]
            v = [Fraction(sum(b[i][t] * b[j][t] for t in range(m)) + (m if i == j else 0)) for i in range(m) for j in range(m)]
        vals[n] = (k, shape, v)
    return dims, vals


PRELUDE = ("import numpy as np\nimport pandas as pd\nimport math\nimport itertools\nimport scipy.integrate as si\nimport scipy.special as sp\n"
           "L = ['x', 'y', 'z']\n")


def text_of(expr, ins, defs):
    return PRELUDE + defs + f"\ndef expression({', '.join(n for n, _, _ in ins)}):\n    return {expr}\n"


def native(text, vals):
    m = {}
    exec(compile(text, 'native', 'exec'), m)
    args = []
    for k, shape, v in vals.values():
        dt = {'i': int, 'b': bool}.get(k, float)
        args.append(numpy.array([dt(x) for x in v], dtype=dt).reshape(shape) if shape else dt(v[0]))
    return m['expression'](*args)


def flat(x):
    """-> (shape or None, list of leaf values)"""
    if isinstance(x, pandas.DataFrame) or isinstance(x, frames.DataFrame):
        s, v = flat(x.values)
        return ('frame', tuple(x.index), tuple(x.columns)), v
    if isinstance(x, pandas.Series) or isinstance(x, frames.Series):
        s, v = flat(x.values)
        return ('series', tuple(x.index)), v
    if isinstance(x, (list, tuple)):
        parts = [flat(y) for y in x]
        return ('list', tuple(p[0] for p in parts)), [y for p in parts for y in p[1]]
    if getattr(x, '__pv_seq__', False):
        return flat(arrays.as_arr(x))
    if type(x).__name__ == 'GridStack':
        return flat(x.__array__pv__())
    if isinstance(x, numpy.ndarray):
        return tuple(x.shape), list(x.ravel())
    if isinstance(x, arrays.SArr):
        sh = []
        for s in x.shape:
            v = s if not core.is_sym(s) else core.concretize(s)
            if v is None:
                raise core.Unsupported("shape not determined by the inputs")
            sh.append(int(v))
        import itertools
        g = x.getter()
        return tuple(sh), [g(i) for i in itertools.product(*map(range, sh))]
    return (), [x]


def shapes_agree(a, b):
    if isinstance(a, tuple) and a[:1] == ('list',) and not (isinstance(b, tuple) and b[:1] == ('list',)):
        return True         # compared through the entries
    return a == b


import collections
stats = collections.Counter()


def one(expr, spec, r, general):
    ins, defs = inputs_of(spec)
    dims, vals = draw(ins, r)
    text = text_of(expr, ins, defs)
    want = native(text, vals)
    ws, wv = flat(want)

    def body(c):
        m = types.ModuleType('snippet')
        m.__dict__['__builtins__'] = c.u.builtins
        tree = instrument.Transformer('snippet').visit(ast.parse(text))
        ast.fix_missing_locations(tree)
        exec(compile(tree, 'snippet', 'exec'), m.__dict__)
        sd = {d: (c.int('dim_' + d, 2) if general else n) for d, n in dims.items()}
        args, later = [], []
        for (n, k, sh), (_, shape, v) in zip(ins, vals.values()):
            if not general:
                a = v[0] if not shape else arrays.from_list(v)
                if shape:
                    if k in 'fpsq':
                        a = a.astype(float)
                    a = a.reshape(shape) if len(shape) > 1 else a
            elif k == 'b':
                f = core.z3.Function(n, *([core.I] * len(shape) + [core.z3.BoolSort()]))
                a = arrays.SArr(tuple(sd.get(s) or int(s) for s in sh), lambda idx, f=f: core.wrap(f(*[core.term(i) for i in idx])), 'b')
                later.append((a.getter(), shape, v, True))
            elif not shape:
                a = c.int(n) if k == 'i' else c.real(n, positive=k == 'p')
                later.append((lambda i, a=a: a, shape, v, False))
            else:
                a = c.array(n, tuple(sd.get(s) or int(s) for s in sh), increasing=k == 's', positive=k == 'p', integer=k == 'i',
                            symmetric=k == 'q')
                later.append((a.copy().getter(), shape, v, False))
            args.append(a)
        got = m.expression(*args)
        for d, n in dims.items():
            c.require(c.eq(sd[d], n))
        import itertools
        for g, shape, v, isb in later:
            for i, x in zip(itertools.product(*map(range, shape)), v):
                c.require(g(i) == x if not isb else (g(i) if x else core.b_not(g(i))))
        gs, gv = flat(got)
        c.ensure('shape', shapes_agree(ws, gs))
        c.ensure('size', len(wv) == len(gv))
        env = {}
        if general:
            env.update(('dim_' + d, n) for d, n in dims.items())
            for n, (k, shape, v) in vals.items():
                if not shape:
                    env[n] = v[0]
                else:
                    def at(*i, shape=shape, v=v):
                        p = 0
                        for q, s in zip(i, shape):
                            if not 0 <= q < s:
                                raise Unknown('index outside')
                            p = p * s + q
                        return v[p]
                    env[n] = at
        for w, x in zip(wv, gv):
            if w is None or isinstance(w, str) or w != w:
                c.ensure('entry', x == w if isinstance(w, str) or w is None else not core.is_sym(x) and x != x)
                continue
            isb = isinstance(w, (bool, numpy.bool_))
            f = int(w) if isb else Fraction(float(w))
            tol = 0 if isb else Fraction(1, 10 ** 7) * (1 + abs(f))
            if core.is_sym(x):
                try:
                    x = evaluate(x.t, env)
                    stats['computed'] += 1
                except Unknown as e:
                    stats['by the solver'] += 1
                    if isb:
                        x = core.ite(x, 1, 0) if not core.is_sym(x) or core.z3.is_bool(x.t) else x
                    far = core.b_or(x - f > tol, f - x > tol)
                    # the engine's facts about an undefined symbol may not determine the value; they must not exclude the right one
                    from pyver import sums
                    q = core.context() + [core.bterm(core.b_not(far))]
                    if core._solve(q + sums.prepare(q), 5000) == core.z3.unsat:
                        c.ensure('entry', core.b_not(far))
                    from pyver import proof
                    stats[proof.check(core.b_not(far))[0]] += 1
                    c.ensure('solved', True)
                    continue
            else:
                stats['computed'] += 1
            c.ensure('entry', abs(x - (f if not isinstance(x, float) else float(f))) <= tol)
    k = api.Contract(body, 'selfcheck', expr, [], 'proof', 1, 1, '', None)
    return api.run_symbolic(k, 60)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--trials', type=int, default=2)
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    o = ap.parse_args()
    n = {'proved': 0, 'undecided': 0, 'refuted': 0}
    weak, bad = {}, []
    for expr, spec in TABLE:
        if o.only not in expr + spec:
            continue
        for general in (True, False):
            for t in range(o.trials):
                r = random.Random(f'{expr}{spec}{t}')
                try:
                    res = one(expr, spec, r, general)
                except core.Unsupported as e:
                    res = dict(status='undecided', reason=str(e))
                st = res['status']
                n[st] = n.get(st, 0) + 1
                if st == 'refuted':
                    bad.append((expr, spec, general, res['failed'], res['reason']))
                    print('REFUTED', 'general' if general else 'ground', expr, '|', spec, '|', res['failed'], res['reason'], flush=True)
                elif st == 'undecided':
                    weak.setdefault((expr, spec), set()).add('general' if general else 'ground')
                    if o.v:
                        print('undecided', 'general' if general else 'ground', expr, '|', spec, '|', res['reason'], flush=True)
                        if o.v and res.get('trace') and o.only:
                            print('   ', *res['trace'][-6:], sep='\n    ')
    both = [k for k, v in weak.items() if len(v) == 2]
    print(f"{len(TABLE)} shim expressions: {n['proved']} evaluations proved equal to the library, {n['undecided']} undecided, "
          f"{n['refuted']} wrong; {len(both)} expressions decided in neither form")
    print(f"entries: {stats['computed']} computed from the engine's term and equal; {stats['by the solver']} containing symbols the engine leaves "
          f"undefined: {stats['proved']} proved equal from its facts, the others only compatible with them")
    for e, s in both:
        print('  undecided in both forms:', e, '|', s)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
