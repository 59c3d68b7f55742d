"""Contracts on the subset of pandas the package uses: labelled tables with concrete, unique labels and symbolic cells, and
per-multipole tables whose row index is a symbolic increasing array.  Anything else is Unsupported (never proved)."""
import itertools
from fractions import Fraction
from . import core
from .core import Unsupported, is_sym, wrap, term, rterm
from .arrays import SArr, as_arr, from_list, pick


class _NaN:
    def __repr__(self):
        return 'NaN'

    def _u(self, *a):
        raise Unsupported("arithmetic on a missing cell")
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __neg__ = _u
    __lt__ = __gt__ = __le__ = __ge__ = __bool__ = __pow__ = _u


NaN = _NaN()


def _labels(x):
    if isinstance(x, Index):
        if x.sym is not None:
            raise Unsupported("labels of a symbolic index")
        return list(x.labels)
    if isinstance(x, SArr):
        return [x.at(k) for k in range(core_len(x))]
    if isinstance(x, (set, frozenset)):
        return sorted(x, key=_key)
    return list(x)


def core_len(x):
    n = as_arr(x).shape[0]
    if is_sym(n):
        raise Unsupported("symbolic number of labels")
    return n


def _key(l):
    return tuple(map(str, l)) if isinstance(l, tuple) else (str(l),)


def _islab(k):
    return isinstance(k, (str, int)) or (isinstance(k, tuple) and all(isinstance(a, str) for a in k))


class Index:
    def __init__(self, labels=None, sym=None):
        self.sym = as_arr(sym) if sym is not None else None
        self.labels = None if sym is not None else list(labels)
        self.names = [None]
        self.name = None
        if self.labels is not None and len(set(self.labels)) != len(self.labels):
            raise Unsupported("duplicate labels")

    def __iter__(self):
        if self.sym is not None:
            raise Unsupported("iterating a symbolic index")
        return iter(self.labels)

    def __len__(self):
        if self.sym is not None:
            raise Unsupported("native len of a symbolic index")
        return len(self.labels)

    @property
    def size(self):
        return self.sym.shape[0] if self.sym is not None else len(self.labels)

    @property
    def shape(self):
        return (self.size,)

    @property
    def values(self):
        return self.sym if self.sym is not None else list(self.labels)

    def to_numpy(self):
        return self.values

    def tolist(self):
        return list(self)
    to_list = tolist

    def isin(self, other):
        from . import npops
        if self.sym is not None:
            o = other.sym if isinstance(other, Index) else other
            return npops.isin(self.sym, as_arr(o))
        s = set(_labels(other))
        return from_list([l in s for l in self.labels])

    def __getitem__(self, k):
        if self.sym is not None:
            r = self.sym[k]
            return Index(sym=r) if isinstance(r, SArr) else r
        if isinstance(k, slice):
            return Index(self.labels[k])
        if isinstance(k, SArr) and k.dtype.kind == 'b':
            return Index([l for q, l in enumerate(self.labels) if bool(k.at(q))])
        return self.labels[k]

    def __eq__(self, o):
        if self.sym is not None:
            return self.sym == (o.sym if isinstance(o, Index) else o)
        ol = _labels(o)
        if len(ol) != len(self.labels):
            raise ValueError("Lengths must match to compare")
        return from_list([a == b for a, b in zip(self.labels, ol)])

    def __contains__(self, x):
        return x in self.labels

    def equals(self, o):
        return self.labels == _labels(o)

    def difference(self, o):
        s = set(_labels(o))
        return Index(sorted([l for l in self.labels if l not in s], key=_key))

    def intersection(self, o):
        s = set(_labels(o))
        return Index([l for l in self.labels if l in s])

    def union(self, o):
        return Index(sorted(set(self.labels) | set(_labels(o)), key=_key))

    def get_loc(self, l):
        if l not in self.labels:
            raise KeyError(l)
        return self.labels.index(l)
    __hash__ = None


def _align(a, b):
    """labels of an aligned binary operation: kept when equal, else the sorted union"""
    if a == b:
        return list(a)
    return sorted(set(a) | set(b), key=_key)


class Series:
    def __init__(self, data=None, index=None, name=None, dtype=None):
        self.name = name
        if isinstance(data, Series):
            index = index if index is not None else data._ix
            data = [data._d[l] for l in _labels(index)]
        if isinstance(data, dict):
            index = list(data) if index is None else index
            data = [data[l] for l in _labels(index)]
        if data is None:
            data, index = [], []
        if isinstance(index, Index) and index.sym is not None:
            self._sym = (index.sym, as_arr(data))
            self._ix = None
            return
        self._sym = None
        if not isinstance(data, (list, tuple, SArr)) and not hasattr(data, 'shape') and index is not None:
            self._ix = _labels(index)
            self._d = {l: data for l in self._ix}
            return
        a = as_arr(data) if not isinstance(data, (list, tuple)) else None
        vals = list(data) if a is None else [a.at(k) for k in range(core_len(a))]
        self._ix = _labels(index) if index is not None else list(range(len(vals)))
        if len(vals) != len(self._ix):
            raise ValueError("Length of values does not match length of index")
        Index(self._ix)
        self._d = dict(zip(self._ix, vals))

    @property
    def index(self):
        return Index(self._ix) if self._sym is None else Index(sym=self._sym[0])

    @property
    def values(self):
        return from_list([self._d[l] for l in self._ix]) if self._sym is None else self._sym[1]

    def to_numpy(self, dtype=None):
        return self.values

    def __len__(self):
        return len(self._ix)

    def __iter__(self):
        return iter([self._d[l] for l in self._ix])

    def copy(self, deep=True):
        s = Series(list(self._d[l] for l in self._ix), self._ix, self.name)
        return s

    @property
    def loc(self):
        return _SLoc(self)

    def __getitem__(self, k):
        return self.loc[k]

    def __setitem__(self, k, v):
        self.loc[k] = v

    def items(self):
        return [(l, self._d[l]) for l in self._ix]

    def sort_index(self):
        ix = sorted(self._ix, key=_key)
        return Series([self._d[l] for l in ix], ix, self.name)

    def sum(self):
        r = 0
        for l in self._ix:
            r = r + self._d[l]
        return r

    def unstack(self):
        if not all(isinstance(l, tuple) and len(l) == 2 for l in self._ix):
            raise Unsupported("unstack of a flat index")
        rows = sorted({l[0] for l in self._ix})
        cols = sorted({l[1] for l in self._ix})
        return DataFrame._cells(rows, cols, {(r, c): self._d.get((r, c), NaN) for r in rows for c in cols})

    def _bin(self, o, f):
        if isinstance(o, Series):
            ix = _align(self._ix, o._ix)
            return Series([f(self._d.get(l, NaN), o._d.get(l, NaN)) if l in self._d and l in o._d else NaN for l in ix], ix)
        if isinstance(o, (SArr, list)):
            a = as_arr(o)
            return Series([f(self._d[l], a.at(q)) for q, l in enumerate(self._ix)], self._ix)
        return Series([f(self._d[l], o) for l in self._ix], self._ix, self.name)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, core.div_total)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: core.div_total(b, a))

    def __pow__(self, o):
        return self._bin(o, core.power)

    def __neg__(self):
        return Series([-self._d[l] for l in self._ix], self._ix, self.name)

    def __abs__(self):
        return Series([abs(self._d[l]) for l in self._ix], self._ix, self.name)

    def abs(self):
        return abs(self)

    def map1(self, f):
        return Series([f(self._d[l]) for l in self._ix], self._ix, self.name)


class _SLoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        s = self.s
        if _islab(k) and not isinstance(k, list):
            if k not in s._d:
                raise KeyError(k)
            return s._d[k]
        if isinstance(k, SArr) and k.dtype.kind == 'b':
            ls = [l for q, l in enumerate(s._ix) if bool(k.at(q))]
        else:
            ls = _labels(k)
        for l in ls:
            if l not in s._d:
                raise KeyError(l)
        return Series([s._d[l] for l in ls], ls, s.name)

    def __setitem__(self, k, v):
        if not _islab(k):
            raise Unsupported("Series.loc set")
        if k not in self.s._d:
            self.s._ix = self.s._ix + [k]
        self.s._d[k] = v


class DataFrame:
    def __init__(self, data=None, index=None, columns=None, dtype=None):
        self._sym = None
        if isinstance(data, DataFrame):
            if data._sym is not None:
                raise Unsupported("frame of symbolic frame")
            ix = _labels(index) if index is not None else data._ix
            co = _labels(columns) if columns is not None else data._co
            self._set(ix, co, {(r, c): data._d.get((r, c), NaN) for r in ix for c in co})
            return
        if isinstance(data, dict):
            cols = _labels(columns) if columns is not None else list(data)
            vals = {c: data[c] for c in cols}
            if vals and all(isinstance(v, Series) for v in vals.values()):
                ix = _labels(index) if index is not None else None
                if ix is None:
                    ls = [v._ix for v in vals.values()]
                    ix = ls[0] if all(l == ls[0] for l in ls) else sorted(set().union(*ls), key=_key)
                self._set(ix, cols, {(r, c): vals[c]._d.get(r, NaN) for r in ix for c in cols})
                return
            arrs = {c: as_arr(v) if not isinstance(v, dict) else v for c, v in vals.items()}
            if any(isinstance(v, dict) for v in arrs.values()):
                ix = list(index) if index is not None else list(next(iter(arrs.values())))
                self._set(ix, cols, {(r, c): arrs[c][r] for r in ix for c in cols})
                return
            ns = [a.shape[0] for a in arrs.values() if a.ndim]
            if ns and any(is_sym(n) for n in ns):
                for n in ns[1:]:
                    if not core.known(term(n) == term(ns[0])):
                        raise ValueError("All arrays must be of the same length")
                from . import npops
                ixs = index.sym if isinstance(index, Index) else (as_arr(index) if index is not None else npops.arange(ns[0]))
                self._sym = (ixs, dict(arrs))
                self._co = cols
                self._ixnames = [None]
                return
            ix = _labels(index) if index is not None else list(range(ns[0] if ns else 0))
            self._set(ix, cols, {(r, c): (arrs[c].at(q) if arrs[c].ndim else arrs[c].at()) for q, r in enumerate(ix) for c in cols})
            return
        if data is None:
            ix = _labels(index) if index is not None else []
            co = _labels(columns) if columns is not None else []
            self._set(ix, co, {(r, c): NaN for r in ix for c in co})
            return
        a = as_arr(data) if not isinstance(data, DataFrame) else data.values
        if a.ndim == 0:
            ix, co = _labels(index), _labels(columns)
            self._set(ix, co, {(r, c): a.at() for r in ix for c in co})
            return
        if a.ndim == 1:
            raise Unsupported("frame from 1-d data")
        if is_sym(a.shape[0]) or is_sym(a.shape[1]):
            raise Unsupported("frame from a symbolic-size array")
        ix = _labels(index) if index is not None else list(range(a.shape[0]))
        co = _labels(columns) if columns is not None else list(range(a.shape[1]))
        if (len(ix), len(co)) != a.shape:
            raise ValueError("Shape of passed values does not match indices")
        self._set(ix, co, {(r, c): a.at(p, q) for p, r in enumerate(ix) for q, c in enumerate(co)})

    def _set(self, ix, co, d):
        self._ix, self._co, self._d = list(ix), list(co), d
        self._ixnames = [None]
        Index(self._ix)
        Index(self._co)

    @classmethod
    def _cells(cls, ix, co, d):
        f = cls.__new__(cls)
        f._sym = None
        f._set(ix, co, d)
        return f

    # ---- attributes
    @property
    def index(self):
        if self._sym is not None:
            i = Index(sym=self._sym[0])
        else:
            i = Index(self._ix)
        i.names = self._ixnames
        return i

    @index.setter
    def index(self, v):
        v = _labels(v)
        if len(v) != len(self._ix):
            raise ValueError("Length mismatch")
        m = dict(zip(self._ix, v))
        self._set(v, self._co, {(m[r], c): x for (r, c), x in self._d.items()})

    @property
    def columns(self):
        return Index(self._co)

    @columns.setter
    def columns(self, v):
        v = _labels(v)
        if len(v) != len(self._co):
            raise ValueError("Length mismatch")
        m = dict(zip(self._co, v))
        self._set(self._ix, v, {(r, m[c]): x for (r, c), x in self._d.items()})

    @property
    def shape(self):
        return (self._sym[0].shape[0], len(self._co)) if self._sym is not None else (len(self._ix), len(self._co))

    @property
    def values(self):
        if self._sym is not None:
            raise Unsupported("values of a symbolic frame")
        rows = [[self._d[(r, c)] for c in self._co] for r in self._ix]
        if any(v is NaN for r in rows for v in r):
            raise Unsupported("missing cells used as numbers")

        def get(idx):
            i, j = idx
            if not is_sym(i) and not is_sym(j):
                return rows[i][j]
            return pick([pick(r, j) for r in rows], i)
        return SArr((len(self._ix), len(self._co)), get, 'f')

    def __pv_array__(self):
        return self.values

    def to_numpy(self, dtype=None):
        return self.values

    @property
    def T(self):
        return DataFrame._cells(self._co, self._ix, {(c, r): v for (r, c), v in self._d.items()})

    @property
    def empty(self):
        return not self._ix or not self._co

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    at = loc

    def copy(self, deep=True):
        if self._sym is not None:
            raise Unsupported("copy of symbolic frame")
        return DataFrame._cells(self._ix, self._co, dict(self._d))

    def __len__(self):
        return len(self._ix)

    def __iter__(self):
        return iter(self._co)

    def __contains__(self, c):
        return c in self._co

    def items(self):
        return [(c, self[c]) for c in self._co]

    def iterrows(self):
        return [(r, self.loc[r]) for r in self._ix]

    # ---- columns
    def __getitem__(self, k):
        if self._sym is not None:
            if k in self._co:
                return _SymCol(self._sym[0], self._sym[1][k])
            raise Unsupported("column selection of a symbolic frame")
        if _islab(k):
            if k not in self._co:
                raise KeyError(k)
            return Series([self._d[(r, k)] for r in self._ix], self._ix, k)
        if isinstance(k, SArr) and k.dtype.kind == 'b':
            return self.loc[k]
        cs = _labels(k)
        return self.loc[self._ix, cs]

    def __setitem__(self, k, v):
        if not _islab(k) or self._sym is not None:
            raise Unsupported("frame column assignment")
        if k not in self._co:
            self._co = self._co + [k]
        if isinstance(v, Series):
            for r in self._ix:
                self._d[(r, k)] = v._d.get(r, NaN)
            return
        if isinstance(v, (SArr, list, tuple)):
            a = as_arr(v)
            if a.ndim:
                if core_len(a) != len(self._ix):
                    raise ValueError("Length of values does not match length of index")
                for q, r in enumerate(self._ix):
                    self._d[(r, k)] = a.at(q)
                return
            v = a.at()
        for r in self._ix:
            self._d[(r, k)] = v

    def set_index(self, keys, inplace=False):
        if self._sym is not None:
            a = as_arr(keys)
            if not core.known(term(a.shape[0]) == term(self._sym[0].shape[0])):
                raise ValueError("Length mismatch")
            if inplace:
                self._sym = (a, self._sym[1])
                return None
            f = DataFrame.__new__(DataFrame)
            f._sym, f._co, f._ixnames = (a, self._sym[1]), self._co, [None]
            return f
        if _islab(keys) and not isinstance(keys, (SArr, list)):
            vals = [self._d[(r, keys)] for r in self._ix]
            co = [c for c in self._co if c != keys]
            m = dict(zip(self._ix, vals))
            f = DataFrame._cells(vals, co, {(m[r], c): self._d[(r, c)] for r in self._ix for c in co})
            if inplace:
                self._set(f._ix, f._co, f._d)
                return None
            return f
        raise Unsupported("set_index")

    # ---- reductions
    def sum(self, axis=0):
        if self._sym is not None:
            from . import npops
            if axis != 0:
                raise Unsupported("row sums of a symbolic frame")
            return Series([npops.sum_(self._sym[1][c]) for c in self._co], self._co)
        if axis in (0, 'index'):
            return Series([self[c].sum() for c in self._co], self._co)
        return Series([self.loc[r].sum() for r in self._ix], self._ix)

    # ---- arithmetic
    def _bin(self, o, f, fill=None):
        if self._sym is not None or getattr(o, '_sym', None) is not None:
            raise Unsupported("arithmetic on symbolic frames")
        if isinstance(o, DataFrame):
            ix, co = _align(self._ix, o._ix), _align(self._co, o._co)
            d = {}
            for r in ix:
                for c in co:
                    a, b = self._d.get((r, c), NaN), o._d.get((r, c), NaN)
                    if fill is not None:
                        if a is NaN and b is NaN:
                            d[(r, c)] = NaN
                            continue
                        a = fill if a is NaN else a
                        b = fill if b is NaN else b
                    d[(r, c)] = NaN if a is NaN or b is NaN else f(a, b)
            return DataFrame._cells(ix, co, d)
        if isinstance(o, Series):
            co = _align(self._co, o._ix)
            return DataFrame._cells(self._ix, co, {(r, c): f(self._d[(r, c)], o._d[c]) if (r, c) in self._d and c in o._d else NaN
                                                   for r in self._ix for c in co})
        if isinstance(o, (SArr, list)):
            a = as_arr(o)
            if a.ndim == 2:
                if a.shape != self.shape:
                    raise ValueError("Unable to coerce to DataFrame, shape mismatch")
                return DataFrame._cells(self._ix, self._co, {(r, c): f(self._d[(r, c)], a.at(p, q)) for p, r in enumerate(self._ix)
                                                             for q, c in enumerate(self._co)})
            if a.ndim == 1:
                return DataFrame._cells(self._ix, self._co, {(r, c): f(self._d[(r, c)], a.at(q)) for r in self._ix
                                                             for q, c in enumerate(self._co)})
            o = a.at()
        return DataFrame._cells(self._ix, self._co, {k: (NaN if v is NaN else f(v, o)) for k, v in self._d.items()
                                                     if k[0] in self._ix and k[1] in self._co})

    def add(self, o, fill_value=None, axis='columns'):
        return self._bin(o, lambda a, b: a + b, fill_value)

    def sub(self, o, fill_value=None, axis='columns'):
        return self._bin(o, lambda a, b: a - b, fill_value)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, core.div_total)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: core.div_total(b, a))

    def __pow__(self, o):
        return self._bin(o, core.power)

    def __neg__(self):
        return self._bin(0, lambda a, b: -a)

    def __abs__(self):
        return self._bin(0, lambda a, b: abs(a))
    abs = __abs__

    def map1(self, f):
        return self._bin(0, lambda a, b: f(a))

    def __eq__(self, o):
        if isinstance(o, DataFrame):
            if self._ix != o._ix or self._co != o._co:
                raise ValueError("Can only compare identically-labeled DataFrame objects")
        r = self._bin(o, lambda a, b: wrap(rterm(a) == rterm(b)))
        return r

    def __ne__(self, o):
        if isinstance(o, DataFrame) and (self._ix != o._ix or self._co != o._co):
            raise ValueError("Can only compare identically-labeled DataFrame objects")
        return self._bin(o, lambda a, b: core.b_not(wrap(rterm(a) == rterm(b))))
    __hash__ = None

    def _order(self, o, f):
        if isinstance(o, DataFrame) and (self._ix != o._ix or self._co != o._co):
            raise ValueError("Can only compare identically-labeled DataFrame objects")
        return self._bin(o, f)

    def __lt__(self, o):
        return self._order(o, lambda a, b: wrap(rterm(a) < rterm(b)))

    def __le__(self, o):
        return self._order(o, lambda a, b: wrap(rterm(a) <= rterm(b)))

    def __gt__(self, o):
        return self._order(o, lambda a, b: wrap(rterm(a) > rterm(b)))

    def __ge__(self, o):
        return self._order(o, lambda a, b: wrap(rterm(a) >= rterm(b)))

    # ---- structure
    def sort_index(self, axis=0, inplace=False):
        ix = sorted(self._ix, key=_key) if axis in (0, 'index') else self._ix
        co = sorted(self._co, key=_key) if axis in (1, 'columns') else self._co
        if inplace:
            self._ix, self._co = list(ix), list(co)
            return None
        return DataFrame._cells(ix, co, dict(self._d))

    def drop(self, labels=None, axis=0, index=None, columns=None, inplace=False):
        if index is not None and columns is not None:
            r = self.drop(index=index, inplace=inplace)
            return (self if inplace else r).drop(columns=columns, inplace=inplace)
        if index is not None:
            labels, axis = index, 0
        elif columns is not None:
            labels, axis = columns, 1
        ls = [labels] if _islab(labels) and not isinstance(labels, (list, set, SArr)) else _labels(labels)
        have = self._ix if axis in (0, 'index') else self._co
        for l in ls:
            if l not in have:
                raise KeyError(f"{l} not found in axis")
        ix = [r for r in self._ix if r not in ls] if axis in (0, 'index') else list(self._ix)
        co = [c for c in self._co if c not in ls] if axis not in (0, 'index') else list(self._co)
        d = {(r, c): self._d[(r, c)] for r in ix for c in co}
        if inplace:
            self._set(ix, co, d)
            return None
        return DataFrame._cells(ix, co, d)

    def reindex(self, index=None, columns=None, fill_value=NaN):
        ix = _labels(index) if index is not None else self._ix
        co = _labels(columns) if columns is not None else self._co
        return DataFrame._cells(ix, co, {(r, c): self._d.get((r, c), fill_value) for r in ix for c in co})

    def fillna(self, v):
        return DataFrame._cells(self._ix, self._co, {k: (v if x is NaN else x) for k, x in self._d.items()})

    def rename(self, mapper=None, index=None, columns=None, axis=None, inplace=False):
        if mapper is not None:
            index, columns = (None, mapper) if axis in (1, 'columns') else (mapper, None)
        fi = (lambda l: index.get(l, l)) if isinstance(index, dict) else (index or (lambda l: l))
        fc = (lambda l: columns.get(l, l)) if isinstance(columns, dict) else (columns or (lambda l: l))
        f = DataFrame._cells([fi(r) for r in self._ix], [fc(c) for c in self._co],
                             {(fi(r), fc(c)): self._d[(r, c)] for r in self._ix for c in self._co})
        if inplace:
            self._set(f._ix, f._co, f._d)
            return None
        return f

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous.")


class _SymCol:
    """column of a symbolic frame"""

    def __init__(self, ix, v):
        self.ix, self.v = ix, v

    @property
    def values(self):
        return self.v

    @property
    def index(self):
        return Index(sym=self.ix)

    def to_numpy(self, dtype=None):
        return self.v

    def sum(self):
        from . import npops
        return npops.sum_(self.v)


class _Loc:
    def __init__(self, f):
        self.f = f

    def _sel(self, k, labels):
        """-> (list of labels, scalar?)"""
        if isinstance(k, slice):
            if k == slice(None):
                return list(labels), False
            raise Unsupported("label slice")
        if _islab(k):
            if k not in labels:
                raise KeyError(k)
            return [k], True
        if isinstance(k, SArr) and k.dtype.kind == 'b':
            return [l for q, l in enumerate(labels) if bool(k.at(q))], False
        if isinstance(k, Series) and k._ix and all(isinstance(v, (bool, core.SBool)) for v in k._d.values()):
            return [l for l in labels if bool(k._d[l])], False
        ls = _labels(k)
        for l in ls:
            if l not in labels:
                raise KeyError(l)
        return ls, False

    def __getitem__(self, k):
        f = self.f
        if f._sym is not None:
            if isinstance(k, SArr) and k.dtype.kind == 'b':
                ix, cv = f._sym
                g = DataFrame.__new__(DataFrame)
                g._sym, g._co, g._ixnames = (ix[k], {c: v[k] for c, v in cv.items()}), f._co, f._ixnames
                return g
            raise Unsupported("loc on a symbolic frame")
        if isinstance(k, tuple) and len(k) == 2 and not (k in f._ix):
            r, s1 = self._sel(k[0], f._ix)
            c, s2 = self._sel(k[1], f._co)
        else:
            r, s1 = self._sel(k, f._ix)
            c, s2 = list(f._co), False
        if s1 and s2:
            return f._d[(r[0], c[0])]
        if s1:
            return Series([f._d[(r[0], x)] for x in c], c, r[0])
        if s2:
            return Series([f._d[(x, c[0])] for x in r], r, c[0])
        return DataFrame._cells(r, c, {(a, b): f._d[(a, b)] for a in r for b in c})

    def __setitem__(self, k, v):
        f = self.f
        if f._sym is not None:
            raise Unsupported("loc set on a symbolic frame")
        if isinstance(k, tuple) and len(k) == 2 and _islab(k[0]) and _islab(k[1]) and k not in f._ix:
            r, c = k
            if r not in f._ix:
                f._ix = f._ix + [r]
                for x in f._co:
                    f._d[(r, x)] = NaN
            if c not in f._co:
                f._co = f._co + [c]
                for x in f._ix:
                    f._d[(x, c)] = NaN
            f._d[(r, c)] = v
            return
        if _islab(k):
            if k not in f._ix:
                f._ix = f._ix + [k]
            if isinstance(v, Series):
                vals = {c: v._d.get(c, NaN) for c in f._co}
            elif isinstance(v, (SArr, list)):
                a = as_arr(v)
                vals = {c: a.at(q) for q, c in enumerate(f._co)}
            else:
                vals = {c: v for c in f._co}
            for c in f._co:
                f._d[(k, c)] = vals[c]
            return
        if isinstance(k, tuple) and len(k) == 2:
            r, _ = self._sel(k[0], f._ix)
            c, _ = self._sel(k[1], f._co)
            if isinstance(v, (SArr, list, DataFrame, Series)):
                raise Unsupported("block assignment")
            for a in r:
                for b in c:
                    f._d[(a, b)] = v
            return
        raise Unsupported("loc set")


class _ILoc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        f = self.f
        if isinstance(k, tuple):
            return f.loc[f._ix[k[0]], f._co[k[1]]]
        return f.loc[f._ix[k]]


def concat(objs, axis=0, keys=None, names=None, sort=False, join='outer'):
    if join != 'outer':
        raise Unsupported("pd.concat join")
    if isinstance(objs, dict):
        if keys is not None:
            raise Unsupported("pd.concat of a dict with keys")
        keys, objs = list(objs), list(objs.values())
    objs = list(objs)
    if keys is not None:
        keys = list(keys)
        if axis != 0 or not all(isinstance(o, Series) for o in objs) or any(isinstance(l, tuple) for o in objs for l in o._ix):
            raise Unsupported("pd.concat with keys")
        return Series([v for o in objs for v in o], [(k, l) for k, o in zip(keys, objs) for l in o._ix])
    if all(isinstance(o, Series) for o in objs) and axis == 0:
        return Series([v for o in objs for v in o], [l for o in objs for l in o._ix])
    if axis == 1 and all(isinstance(o, (Series, DataFrame)) for o in objs):
        fr = [DataFrame({o.name: o}) if isinstance(o, Series) else o for o in objs]
        ixs = [f._ix for f in fr]
        ix = ixs[0] if all(i == ixs[0] for i in ixs) else sorted(set().union(*ixs), key=_key)
        co = [c for f in fr for c in f._co]
        return DataFrame._cells(ix, co, {(r, c): f._d.get((r, c), NaN) for f in fr for r in ix for c in f._co})
    if axis == 0 and all(isinstance(o, DataFrame) for o in objs):
        ix = [r for o in objs for r in o._ix]
        co = objs[0]._co if all(o._co == objs[0]._co for o in objs) else [c for o in objs for c in o._co]
        co = list(dict.fromkeys(co))
        return DataFrame._cells(ix, co, {(r, c): o._d.get((r, c), NaN) for o in objs for r in o._ix for c in co})
    raise Unsupported("pd.concat")


def table():
    from .instrument import ShimModule
    m = ShimModule('pandas')
    m.DataFrame, m.Series, m.Index, m.concat = DataFrame, Series, Index, concat
    return {'pandas': m}
