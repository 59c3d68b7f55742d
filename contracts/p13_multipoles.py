"""Multipole bins of a probe and of a pair of probes."""
from types import SimpleNamespace
from pyver.api import contract

AU = 'seyfert.utils.array_utils'
PC, FC = 'seyfert.config.probe_config', 'seyfert.config.forecast_config'
ns = SimpleNamespace
LIN, LOG = ['lin', 'linear', 'Linear'], ['log', 'logarithmic', 'Logarithmic']


@contract('P13', [AU + '.compute_multipoles_arrays'], weight=2)
def linear_bins(c):
    """linear: one bin of width one per integer step from l_min to l_max"""
    a, n = c.int('l_min', 0, conc=(0, 20)), c.int('n', 1, conc=(1, 30))
    x, w = c.target(AU + ':compute_multipoles_arrays')(a, a + n, c.choice('spacing', LIN))
    c.ensure('number', c.and_(c.shape_eq(x, (n,)), c.shape_eq(w, (n,))))
    c.forall('centres and widths', [n], lambda k: c.and_(c.eq(c.get(x, k), a + k + c.frac(1, 2)), c.eq(c.get(w, k), 1)))


@contract('P13', [AU + '.compute_multipoles_arrays'], weight=2)
def logarithmic_bins(c):
    """logarithmic: n bins with edges in geometric progression, tiling the range from l_min to l_max without gaps"""
    a, d = c.real('l_min', positive=True, conc=(1, 20)), c.real('range', positive=True, conc=(10, 3000))
    b = a + d
    n = c.int('n', 1, conc=(1, 12))
    x, w = c.target(AU + ':compute_multipoles_arrays')(a, b, c.choice('spacing', LOG), n)
    c.ensure('number', c.and_(c.shape_eq(x, (n,)), c.shape_eq(w, (n,))))
    L = lambda k: c.log10(a) + (c.log10(b) - c.log10(a)) * c.div(k, n)
    e = lambda k: c.exp10(L(k))
    c.forall('centres and widths', [n], lambda k: c.and_(c.eq(c.get(x, k), (e(k) + e(k + 1)) / 2), c.eq(c.get(w, k), e(k + 1) - e(k))))
    lo, hi = (lambda k: c.get(x, k) - c.get(w, k) / 2), (lambda k: c.get(x, k) + c.get(w, k) / 2)
    c.ensure('starts at l_min', c.eq(lo(0), a))
    c.ensure('ends at l_max', c.eq(hi(n - 1), b))
    c.forall('no gaps', [(0, n - 1)], lambda k: c.eq(hi(k), lo(k + 1)))


@contract('P13', [AU + '.compute_multipoles_arrays'], weight=1)
def refused_bins(c):
    """an empty or reversed range, an unknown spacing, a missing or non numeric number of bins are refused"""
    f = c.target(AU + ':compute_multipoles_arrays')
    a, d = c.real('l_min', positive=True, conc=(1, 20)), c.real('d', positive=True, conc=(1, 20))
    s = c.choice('spacing', LIN + LOG)
    c.raises('reversed', ValueError, lambda: f(a + d, a, s, 5))
    c.raises('empty', ValueError, lambda: f(a, a, s, 5))
    c.raises('unknown spacing', KeyError, lambda: f(a, a + d, c.choice('wrong', ['', 'ln', 'LOG', 'Log', 'geometric']), 5))
    if s in LOG:
        c.raises('number of bins missing', ValueError, lambda: f(a, a + d, s))
        c.raises('number of bins as text', TypeError, lambda: f(a, a + d, s, '5'))


@contract('P13', [AU + '.compute_ell_bin_widths_from_log_centers'], weight=1)
def widths_from_centres(c):
    """the widths recovered from the centres of logarithmic bins are the widths of those bins"""
    n = c.int('n', 2, conc=(2, 12))
    x = c.array('centres', (n,), positive=True, gen=lambda r, s: (1 + r.random()) ** __import__('numpy').arange(s[0]) * (1 + r.random()))
    q = c.div(c.get(x, 1), c.get(x, 0))
    c.require(q > 1)
    w = c.target(AU + ':compute_ell_bin_widths_from_log_centers')(x)
    c.ensure('shape', c.shape_eq(w, (n,)))
    lower, upper = (lambda k: 2 * c.div(c.get(x, k), 1 + q)), (lambda k: 2 * q * c.div(c.get(x, k), 1 + q))
    c.forall('edges', [n], lambda k: c.and_(c.eq((lower(k) + upper(k)) / 2, c.get(x, k)), c.eq(upper(k), q * lower(k))))
    c.forall('widths', [n], lambda k: c.eq(c.get(w, k), upper(k) - lower(k)))


@contract('P13', [PC + '.ProbeConfig.getProbeMultipoleBinning'], weight=2)
def bins_of_a_probe(c):
    """the range, spacing and number of the configuration; with an external file its two columns, whatever else is configured"""
    p = c.target(PC + ':ProbeConfig')(c.choice('probe', ['PhotometricGalaxy', 'wl', 'V']))
    from pathlib import Path
    p.input_data_dir = Path('/nowhere/data')
    how = c.choice('bins', ['linear', 'log', 'file', 'no file named', 'number missing'])
    a, n = c.int('l_min', 1, conc=(1, 20)), c.int('n', 1, conc=(1, 30))
    m = c.int('bins', 1, conc=(1, 20))
    d = {'l_min': a, 'l_max': a + n, 'ell_log_selection': how in ('log', 'number missing')}
    if how in ('linear', 'log', 'file'):
        d['log_l_number'] = m
    if how == 'no file named':
        d['ell_external_filename'] = None
    T = c.array('table', (m, c.choice('columns', [2, 3])), positive=True)
    asked = []
    if how == 'file':
        d['ell_external_filename'] = 'ells.txt'
        load = lambda f: (asked.append(f), T)[1]
        c.stub(PC + ':np.loadtxt', load)
        x, w = p.getProbeMultipoleBinning(d)
        c.ensure('file', asked == [Path('/nowhere/data/ells.txt')])
        c.ensure('shape', c.and_(c.shape_eq(x, (m,)), c.shape_eq(w, (m,))))
        c.forall('columns', [m], lambda k: c.and_(c.eq(c.get(x, k), c.get(T, k, 0)), c.eq(c.get(w, k), c.get(T, k, 1))))
        return
    if how == 'number missing':
        c.raises('number missing', ValueError, lambda: p.getProbeMultipoleBinning(d))
        return
    want = c.target(AU + ':compute_multipoles_arrays')(a, a + n, 'log' if how == 'log' else 'lin', m)
    x, w = p.getProbeMultipoleBinning(d)
    N = m if how == 'log' else n
    c.ensure('shape', c.and_(c.shape_eq(x, (N,)), c.shape_eq(w, (N,))))
    c.forall('bins', [N], lambda k: c.and_(c.eq(c.get(x, k), c.get(want[0], k)), c.eq(c.get(w, k), c.get(want[1], k))))


@contract('P13', [FC + '.ForecastConfig.getMultipoleArraysForProbeComb', 'seyfert.utils.general_utils.get_probes_from_comb_key'], weight=2)
def bins_of_a_pair(c):
    """the multipoles both probes have, increasing, each with its own width; probes without common multipoles are refused"""
    import numpy as np
    f = c.target(FC + ':ForecastConfig')()
    names = ['PhotometricGalaxy', 'SpectroscopicGalaxy', 'Lensing', 'Void']
    p, q = c.choice('first', names), c.choice('second', names)
    g = []
    for k in range(2):
        L = c.int(f'L{k}', 1, conc=(1, 8))
        g.append((c.array(f'l{k}', (L,), increasing=True, positive=True, gen=lambda r, s: 1.0 + 0.75 * r.choice(s[0] + 3, s[0], replace=False)), c.array(f'd{k}', (L,), positive=True)))
    if p == q:
        g[1] = g[0]
    f.probe_configs = {p: ns(l_bin_centers=g[0][0], l_bin_widths=g[0][1]), q: ns(l_bin_centers=g[1][0], l_bin_widths=g[1][1])}
    try:
        l, w = f.getMultipoleArraysForProbeComb(f'{p}_{q}')
    except Exception as e:
        if type(e) is not Exception:
            raise
        other = c.member(g[1][0])
        c.forall('refused only without common multipoles', [c.len(g[0][0])], lambda k: c.not_(other(c.get(g[0][0], k))))
        return
    c.ensure('refused without common multipoles', c.len(l) > 0)
    c.ensure_common('common multipoles', l, [g[0][0], g[1][0]])
    c.ensure('shape', c.shape_eq(w, (c.len(l),)))
    pos = c.positions(g[0][0], l)
    c.forall('width of the multipole', [c.len(l)], lambda t: c.eq(c.get(w, t), c.get(g[0][1], pos(t))))


@contract('P13', [FC + '.ForecastConfig.checkProbesMultipoles'], weight=2)
def compatible_probes(c):
    """probes are accepted together exactly when every two of them have a multipole in common"""
    import itertools
    f = c.target(FC + ':ForecastConfig')()
    n = c.choice('probes', [1, 2, 3])
    g = [c.array(f'l{k}', (c.int(f'L{k}', 1, conc=(1, 4)),), increasing=True, positive=True,
                 gen=lambda r, s: 1.0 + 0.75 * r.choice(s[0] + 4, s[0], replace=False)) for k in range(n)]
    names = ['PhotometricGalaxy', 'SpectroscopicGalaxy', 'Lensing'][:n]
    f.probe_configs = {p: ns(l_bin_centers=x) for p, x in zip(names, g)}
    f.probes_combinations = list(itertools.combinations_with_replacement(names, 2))
    if c.sym:
        # the callee's contract (P04): the values two grids share, here any number of them
        common = {}

        def shared(arrays):
            i, j = sorted([k for k, x in enumerate(g) if x is a][0] for a in arrays)
            if (i, j) not in common:
                common[i, j] = c.int(f'common{i}{j}', 0 if i != j else 1)
            return c.vector(common[i, j], lambda k: k)
        c.patch(AU + ':compute_arrays_intersection1d', shared)
        try:
            f.checkProbesMultipoles()
        except ValueError:
            c.ensure('refused', c.or_(*[m == 0 for m in common.values()]))
            return
        c.ensure('every pair looked at', len(common) == len(f.probes_combinations))
        c.ensure('accepted', c.and_(*[m > 0 for m in common.values()]))
        return
    apart = any(not set(a.tolist()) & set(b.tolist()) for a, b in itertools.combinations(g, 2))
    if apart:
        c.raises('incompatible', ValueError, f.checkProbesMultipoles)
    else:
        f.checkProbesMultipoles()


@contract('P13', [AU + '.symmetrize_clij_arr'], weight=1)
def symmetrised(c):
    """the symmetric part of every slice"""
    L, n = c.int('L', 1, conc=(1, 3)), c.int('n', 1, conc=(1, 4))
    X = c.array('X', (L, n, n))
    s = c.target(AU + ':symmetrize_clij_arr')(X)
    c.ensure('shape', c.shape_eq(s, (L, n, n)))
    c.forall('symmetric part', [L, n, n], lambda l, i, j: c.eq(c.get(s, l, i, j), (c.get(X, l, i, j) + c.get(X, l, j, i)) / 2))
