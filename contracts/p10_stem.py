"""SteM derivative: slope of the least-squares line on the smallest trimming that is linear within one percent."""
from types import SimpleNamespace
from pyver.api import contract

DF = 'seyfert.derivatives.differentiator'
ST = DF + '.SteMClDifferentiator.'
TOL = (1, 100)


def good(c, xs, ys):
    """every value is reproduced within the tolerance by the line fitted to all of them"""
    s, i = c.line_fit(xs, ys)
    return c.and_(*[c.abs(c.div(y - (i + s * x), y)) < c.frac(*TOL) for x, y in zip(xs, ys)])


def grid(c, n):
    x0 = c.real('x0', conc=(-1, 1))
    xs = [x0]
    for k in range(1, n):
        xs.append(xs[-1] + c.real(f'dx{k}', positive=True, conc=(0.01, 0.2)))
    return xs


@contract('P10', [ST + 'STEM_derivative'], weight=3)
def one_entry(c):
    """slope of the fit on the first window (all points, then without the outermost pair, ...) that is linear; at least three
    points are always kept"""
    n = c.choice('points', [3, 5] if c.sym else [3, 5, 7])
    xs = grid(c, n)
    a, b = c.real('a'), c.real('b')
    wob = c.choice('wobble', [0.0, 0.005, 0.1, 1.0]) if not c.sym else 0
    ys = [c.real(f'y{k}') if c.sym else a + b * x + wob * c.real(f'y{k}', conc=(-1, 1)) for k, x in enumerate(xs)]
    np = c.np()
    c.require(c.and_(*[c.not_(c.eq(y, 0)) for y in ys]))
    r = c.target(DF + ':SteMClDifferentiator.STEM_derivative')(np.array(xs), np.array(ys))
    const = c.and_(*[c.eq(y, ys[0]) for y in ys])
    want = None
    for t in range((n - 3) // 2, -1, -1):
        w, v = xs[t:n - t], ys[t:n - t]
        s = c.line_fit(w, v)[0]
        want = s if want is None else c.ite(good(c, w, v), s, want)
    if not c.sym:
        import numpy
        near = False
        for t in range((n - 3) // 2 + 1):
            w, v = xs[t:n - t], ys[t:n - t]
            s, i = c.line_fit(w, v)
            near = near or any(abs(abs(y - (i + s * x)) / abs(y) - 0.01) < 1e-6 for x, y in zip(w, v))
        c.require(not near and not const)
    c.ensure('slope', c.or_(const, c.eq(r, want)))
    c.ensure('constant', c.or_(c.not_(const), c.eq(r, 0)))


def spectra(c, n, L, ni, nj, xs):
    if c.sym:
        return c.array('C', (n, L, ni, nj), nonzero=True)
    import numpy
    r = numpy.random.RandomState(c.choice('noise_seed', list(range(1000))))
    x = numpy.array(xs)[:, None, None, None]
    a, b = r.uniform(-2, 2, (1, L, ni, nj)), r.uniform(-2, 2, (1, L, ni, nj))
    amp = 10. ** r.uniform(-5, 0, (1, L, ni, nj))
    return c.array('C', (n, L, ni, nj), gen=lambda rr, s: a + b * x + amp * r.uniform(-1, 1, s))


@contract('P10', [ST + 'vectorizedSteM'], weight=4)
def all_entries_at_once(c):
    """entry by entry the same rule: slope of the first window (all points, then without the outermost pair, ...) whose fit
    reproduces every value within one percent, at least three points being kept"""
    n = c.choice('points', [3, 5] if c.sym else [3, 5, 7])
    L, ni, nj = c.int('L', 1, conc=(1, 4)), c.int('ni', 1, conc=(1, 3)), c.int('nj', 1, conc=(1, 3))
    xs = grid(c, n)
    C = spectra(c, n, L, ni, nj, xs)
    r = c.target(DF + ':SteMClDifferentiator.vectorizedSteM')(c.np().array(xs), C)
    c.ensure('shape', c.shape_eq(r, (L, ni, nj)))

    def entry(l, i, j):
        ys = [c.get(C, k, l, i, j) for k in range(n)]
        want = None
        for t in range((n - 3) // 2, -1, -1):
            w, v = xs[t:n - t], ys[t:n - t]
            s, ic = c.line_fit(w, v)
            if not c.sym and any(abs(abs(y - (ic + s * x)) / abs(y) - 0.01) < 1e-6 for x, y in zip(w, v)):
                return True
            ok = c.and_(*[c.div(c.abs(ic + s * x - y), c.abs(y)) <= c.frac(*TOL) for x, y in zip(w, v)])
            want = s if want is None else c.ite(ok, s, want)
        return c.or_(c.and_(*[c.eq(y, ys[0]) for y in ys]), c.eq(c.get(r, l, i, j), want))
    c.forall('slope', [L, ni, nj], entry)


@contract('P10', [ST + 'STEM_derivative', ST + 'vectorizedSteM'], weight=2)
def linear_spectra(c):
    """spectra linear in the parameter give the exact slope, whatever the sign of the values"""
    n = c.choice('points', [3, 5])
    xs = grid(c, n)
    how = c.choice('how', ['entry', 'all'])
    c.lines_are_exact()
    np = c.np()
    if how == 'entry':
        a, b = c.real('a'), c.real('b')
        c.require(c.and_(*[c.not_(c.eq(a + b * x, 0)) for x in xs]))
        if not c.sym:
            c.require(all(abs(a + b * x) > 1e-9 for x in xs) and b != 0)
        ys = [a + b * x for x in xs]
        c.require(c.not_(c.eq(b, 0)))
        r = c.target(DF + ':SteMClDifferentiator.STEM_derivative')(np.array(xs), np.array(ys))
        c.ensure('slope', c.eq(r, b))
        return
    L, ni, nj = c.int('L', 1, conc=(1, 4)), c.int('ni', 1, conc=(1, 3)), c.int('nj', 1, conc=(1, 3))
    A, B = c.array('A', (L, ni, nj)), c.array('B', (L, ni, nj))
    C = np.stack([A + B * x for x in xs])
    r = c.target(DF + ':SteMClDifferentiator.vectorizedSteM')(np.array(xs), C)
    c.forall('slopes', [L, ni, nj], lambda l, i, j: c.eq(c.get(r, l, i, j), c.get(B, l, i, j)))


class Weights:
    """stands for the parameter collection: gives the displaced values of the parameter asked for"""

    def __init__(self, table):
        self.table = table

    def computePhysParSTEMValues(self, dvar):
        return self.table[dvar]


@contract('P10', [ST + 'doComputeDerivative', DF + '.ClDifferentiator.computeDerivative'])
def which_values_are_fitted(c):
    """the fit of entry (l, i, j) takes the values of that entry at the displaced values of the parameter differentiated; a
    nuisance parameter of a probe the spectrum does not involve gives zero"""
    n = 3
    L, ni, nj = c.int('L', 1, conc=(1, 4)), c.int('ni', 1, conc=(1, 3)), c.int('nj', 1, conc=(1, 3))
    np = c.np()
    xs = {p: [c.real(f'{p}{k}') for k in range(n)] for p in ('h', 'b1')}
    C, fid = c.array('C', (n, L, ni, nj)), c.array('fid', (L, ni, nj))
    name = c.choice('name', ['h', 'b1'])
    nuis = c.choice('nuisance', [True, False])
    probe = c.choice('probe', ['P', 'Q', 'S'])
    vec = c.choice('vectorized', [True, False])
    cls = c.target(DF + ':SteMClDifferentiator')
    c.patch(DF + ':SteMClDifferentiator.STEM_derivative', staticmethod(lambda x, y: sum(x[k] * y[k] for k in range(n))))
    c.patch(DF + ':SteMClDifferentiator.vectorizedSteM',
            staticmethod(lambda dvar_vals, c_dvar_lij: sum(dvar_vals[k] * c_dvar_lij[k] for k in range(n))))

    def fit(x, y):
        return sum(x[k] * y[k] for k in range(n)) if c.sym else cls.STEM_derivative(np.array(x), np.array(y))
    par = SimpleNamespace(name=name, is_nuisance=nuis, probe=probe)
    d = cls(vectorized=vec, phys_pars=Weights({p: np.array(v) for p, v in xs.items()}), probe1='P', probe2='Q', param=par, workspace=None)
    d.c_dvar_lij = C
    d.fiducial_cl = SimpleNamespace(probe1='P', probe2='Q', obs_key='P_Q', c_lij=fid)
    r = d.computeDerivative()
    zero = nuis and probe == 'S'
    c.ensure('shape', c.shape_eq(r, (L, ni, nj)))
    c.forall('entries', [L, ni, nj], lambda l, i, j: c.eq(
        c.get(r, l, i, j), 0 if zero else fit(xs[name], [c.get(C, k, l, i, j) for k in range(n)])))
