"""symbolic-length python sequences: ranges, list comprehensions, enumerate / zip / map of those"""
import z3
from . import core
from .core import S, SNum, SBool, is_sym, term, wrap, Unsupported, known, fork, ite


class Seq:
    """immutable sequence of symbolic length; item(k) evaluates the k-th element"""
    __pv_seq__ = True

    def __init__(self, n, item, kind='list', src=None):
        self.n = n
        self._item = item
        self.kind = kind
        self.src = src

    def pv_len(self):
        return self.n

    def item(self, k):
        return self._item(k)

    def __len__(self):
        raise Unsupported("native len of symbolic sequence")

    def __iter__(self):
        n = core.concretize(self.n)
        if n is None:
            raise Unsupported("native iteration over a symbolic-length sequence")
        return iter([self._item(k) for k in range(n)])

    def __getitem__(self, k):
        from .arrays import norm_index, norm_slice
        if isinstance(k, slice):
            st, ln, step = norm_slice(k, self.n)
            return Seq(ln, lambda j: self._item(j * step + st))
        return self._item(norm_index(k, self.n))

    def __bool__(self):
        return fork(term(self.n) > 0)

    def __add__(self, o):
        o = as_seq(o)
        n1 = self.n
        return Seq(n1 + o.n, lambda k: self._item(k) if fork(term(k) < term(n1)) else o.item(k - n1))

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("equality of symbolic sequences")

    def __hash__(self):
        raise TypeError("unhashable")

    def index(self, x):
        raise Unsupported("index() on symbolic sequence")

    def __contains__(self, x):
        raise Unsupported("membership in symbolic sequence")


def as_seq(x):
    if isinstance(x, Seq):
        return x
    if getattr(x, '__pv_array__', False):
        return Seq(x.shape[0], lambda k: x[k], src=x)
    if hasattr(x, '__pv_toseq__'):
        return x.__pv_toseq__()
    if isinstance(x, range):
        return Seq(len(x), lambda k: k * x.step + x.start)
    xs = list(x)
    from .arrays import pick
    return Seq(len(xs), lambda k: pick(xs, k))


def sym_range(*args):
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], 1
    else:
        lo, hi, st = args
    for a in (lo, hi, st):
        if (is_sym(a) and not a.is_int) or isinstance(a, float) or type(a).__name__ == 'Fraction':
            raise TypeError("'float' object cannot be interpreted as an integer")
    if is_sym(st):
        raise Unsupported("symbolic step")
    if st == 1:
        n = hi - lo
        if is_sym(n) and not known(n.t >= 0):
            n = ite(wrap(n.t >= 0), n, 0)
        elif not is_sym(n):
            n = max(n, 0)
        return Seq(n, lambda k: k + lo, 'range')
    if st == -1:
        n = lo - hi
        if is_sym(n) and not known(n.t >= 0):
            n = ite(wrap(n.t >= 0), n, 0)
        elif not is_sym(n):
            n = max(n, 0)
        return Seq(n, lambda k: lo - k, 'range')
    if st > 1:
        n = core.floordiv(hi - lo + (st - 1), st)
        if is_sym(n) and not known(n.t >= 0):
            n = ite(wrap(n.t >= 0), n, 0)
        return Seq(n, lambda k: k * st + lo, 'range')
    raise Unsupported("negative range step")


def symbolic_iterable(x):
    """Seq when x has a symbolic length, else None"""
    if isinstance(x, Seq):
        n = x.n
        if is_sym(n):
            v = core.concretize(n)
            if v is not None:
                return None
            return x
        return None
    if getattr(x, '__pv_array__', False):
        if x.ndim and is_sym(x.shape[0]) and core.concretize(x.shape[0]) is None:
            return as_seq(x)
        return None
    if hasattr(x, '__pv_toseq__'):
        return x.__pv_toseq__()
    return None


def native_list(x):
    if isinstance(x, Seq) and is_sym(x.n):
        n = core.concretize(x.n)
        return [x.item(k) for k in range(n)]
    return list(x)


def sym_zip(*xs):
    ss = [as_seq(x) for x in xs]
    n = ss[0].n
    for s in ss[1:]:
        if s.n is n or (not is_sym(n) and not is_sym(s.n) and n == s.n) or known(term(n) == term(s.n)):
            continue
        n = ite(wrap(term(s.n) < term(n)), s.n, n)
    return Seq(n, lambda k: tuple(s.item(k) for s in ss))


def sym_enumerate(x, start=0):
    s = as_seq(x)
    return Seq(s.n, lambda k: (k + start, s.item(k)))


def seq_to_array(s):
    from .arrays import SArr, as_arr, scalar_kind
    k = core.bvar('?e')
    with core.Scope(k >= 0, k < s.n):
        probe = core.merged(lambda: s.item(k), 'array element')
    if core.is_sym(probe) or core._num(probe):
        kind = scalar_kind(probe)

        def el(idx):
            v = idx[0]
            if not is_sym(v):
                return core.merged(lambda: s.item(v), 'array element')
            if not is_sym(probe):
                return probe
            return wrap(z3.substitute(probe.t, (k.t, term(v))))
        return SArr((s.n,), el, kind)
    if getattr(probe, '__pv_array__', False):
        g = probe.getter()

        def el2(idx):
            r = g(tuple(idx[1:]))
            if is_sym(r):
                return wrap(z3.substitute(r.t, (k.t, term(idx[0]))))
            return r
        return SArr((s.n,) + probe.shape, el2, probe.dtype.kind)
    if isinstance(probe, (list, tuple)):
        pa = as_arr(probe)
        g2 = pa.getter()

        def el3(idx):
            r = g2(tuple(idx[1:]))
            return wrap(z3.substitute(r.t, (k.t, term(idx[0])))) if is_sym(r) else r
        return SArr((s.n,) + pa.shape, el3, pa.dtype.kind)
    raise Unsupported(f"array from sequence of {type(probe)}")


class SymMap:
    """dict built by a comprehension over a symbolic-length iterable: ordered family of (key, value)"""

    def __init__(self, n, item):
        self.n = n
        self._item = item     # k -> (key, value)

    def pv_len(self):
        return self.n

    def __len__(self):
        raise Unsupported("native len of symbolic dict")

    def items(self):
        return Seq(self.n, self._item)

    def keys(self):
        return Seq(self.n, lambda k: self._item(k)[0])

    def values(self):
        return Seq(self.n, lambda k: self._item(k)[1])

    def __pv_toseq__(self):
        return self.keys()

    def __getitem__(self, key):
        raise Unsupported("lookup in a symbolic dict")


class NumDict(dict):
    """dictionary with symbolic numbers as keys (a literal number of entries): equality of keys is decided by the solver, an
    undecided one forks"""

    def __init__(self, pairs=()):
        super().__init__()
        self.e = []
        for k, v in (pairs.items() if isinstance(pairs, dict) else pairs):
            self[k] = v

    def _find(self, k):
        for q, (a, _) in enumerate(self.e):
            if a is k:
                return q
        for q, (a, _) in enumerate(self.e):
            if isinstance(a, (str, tuple)) or isinstance(k, (str, tuple)) or k is None or a is None:
                if type(a) is type(k) and a == k:
                    return q
                continue
            if bool(a == k):
                return q
        return None

    def __setitem__(self, k, v):
        q = self._find(k)
        if q is None:
            self.e.append((k, v))
        else:
            self.e[q] = (self.e[q][0], v)

    def __getitem__(self, k):
        q = self._find(k)
        if q is None:
            raise KeyError(k)
        return self.e[q][1]

    def __delitem__(self, k):
        q = self._find(k)
        if q is None:
            raise KeyError(k)
        del self.e[q]

    def get(self, k, d=None):
        q = self._find(k)
        return d if q is None else self.e[q][1]

    def __contains__(self, k):
        return self._find(k) is not None

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return bool(self.e)

    def __iter__(self):
        return iter([k for k, _ in self.e])

    def keys(self):
        return [k for k, _ in self.e]

    def values(self):
        return [v for _, v in self.e]

    def items(self):
        return list(self.e)

    def update(self, o):
        for k, v in (o.items() if hasattr(o, 'items') else o):
            self[k] = v

    def copy(self):
        return NumDict(self.e)

    def __eq__(self, o):
        raise core.Unsupported("comparison of dictionaries with symbolic keys")
    __hash__ = None


def make_dict(pairs):
    pairs = [tuple(p) for p in (pairs.items() if hasattr(pairs, 'keys') and hasattr(pairs, 'items') else pairs)]
    if any(core.is_sym(k) and core.concretize(k) is None for k, _ in pairs):
        return NumDict(pairs)
    return dict(pairs)


class Nest:
    """iterations of nested loops in order: level d runs over levels[d](*outer positions), the item of the positions is item(*p)"""

    def __init__(self, levels, item):
        self.levels, self.pair = levels, item

    def __iter__(self):
        raise Unsupported("native iteration over nested symbolic ranges")

    def __len__(self):
        raise Unsupported("native len of nested symbolic ranges")


def _sized(xs):
    xs = [symbolic_iterable(x) or x for x in xs]
    return xs, any(isinstance(x, Seq) and symbolic_iterable(x) is not None for x in xs)


def product(*xs, repeat=1):
    import itertools
    xs, sym = _sized(xs)
    if not sym:
        return itertools.product(*[native_list(x) for x in xs], repeat=repeat)
    ss = [as_seq(x) for x in xs] * repeat
    return Nest([(lambda *p, s=s: sym_range(s.n)) for s in ss], lambda *p: tuple(s.item(i) for s, i in zip(ss, p)))


def _combos(first):
    def f(x, r):
        import itertools
        (x,), sym = _sized([x])
        if not sym:
            return (itertools.combinations if first else itertools.combinations_with_replacement)(native_list(x), r)
        s = as_seq(x)
        return Nest([(lambda *p: sym_range(p[-1] + first if p else 0, s.n)) for _ in range(r)], lambda *p: tuple(s.item(i) for i in p))
    return f


combinations = _combos(1)
combinations_with_replacement = _combos(0)
