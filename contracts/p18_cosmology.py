"""Background and growth functions, cosmological parameters handed to the Boltzmann codes, spectra read back from them."""
from types import SimpleNamespace
from pyver.api import contract

CM, PS, BS = 'seyfert.cosmology.cosmology', 'seyfert.cosmology.power_spectrum', 'seyfert.cosmology.boltzmann_solver'
C = CM + '.Cosmology.'
RANGES = {'h': (0.6, 0.8), 'w0': (-1.2, -0.8), 'wa': (-0.3, 0.3), 'Omm': (0.2, 0.4), 'OmDE': (0.5, 0.7), 'Omb': (0.03, 0.06), 'ns': (0.9, 1),
          'sigma8': (0.7, 0.9), 'mnu': (0.05, 0.2), 'gamma': (0.4, 0.7)}
ns = SimpleNamespace


def cosmological(c, name, value, fiducial):
    P = c.target('seyfert.cosmology.parameter:PhysicalParameter')
    return P(name=name, kind=P.COSMO_PAR_STRING, current_value=value, fiducial=fiducial, is_free_parameter=name not in ('OmDE', 'mnu', 'wa', 'gamma'))


def parameters(c, tag=''):
    p = {}
    for k, r in RANGES.items():
        v = c.real(tag + k, conc=r, positive=k not in ('w0', 'wa'))
        p[k] = cosmological(c, k, v, c.real(tag + k + '_fid', conc=r))
    return p


def cosmology(c):
    p = parameters(c)
    m = c.target(CM + ':Cosmology')()
    m.params, m.is_flat = p, False
    m.c_km_s = c.real('c', positive=True, conc=(2, 3))
    return m, ns(**{k: v.current_value for k, v in p.items()})


def grid(c, lo=1, first=0):
    import numpy as np
    n = c.int('nz', lo, conc=(max(lo, 4), 7))
    return n, c.array('z', (n,), increasing=True, nonneg=True, gen=lambda r, s: np.sort(r.random(s[0])) * 2 + 0.01)


def E2(c, p, z):
    x = 1 + z
    return p.Omm * x ** 3 + p.OmDE * x ** (3 * (1 + p.w0 + p.wa)) * c.exp(c.div(-3 * p.wa * z, x)) + (1 - p.Omm - p.OmDE) * x ** 2


def E(c, p, z):
    return c.sqrt(E2(c, p, z))


@contract('P18', [C + f for f in ('computeDimensionlessHubbleParameter', '_dimensionlessHubbleParameter', 'computeReciprocalDimensionlessHubbleParameter',
                                  'computeHubbleParameter', 'Omega_m_of_z', 'H0', 'h', 'w0', 'wa', 'Omm', 'OmDE', 'cosmo_pars_current', '__init__')], weight=2)
def expansion_rate(c):
    """E(z) for matter, CPL dark energy and curvature, at one redshift and on a grid; H = 100 h E; E(0) = 1; Omega_m(z) = Omm (1+z)^3 / E^2"""
    m, p = cosmology(c)
    n, z = grid(c)
    z0 = c.real('z0', positive=True, conc=(0.1, 2))
    c.require(E2(c, p, z0) > 0)
    c.ensure('one redshift', c.eq(m.computeDimensionlessHubbleParameter(z0), E(c, p, z0)))
    c.ensure('today', c.eq(m.computeDimensionlessHubbleParameter(0 * z0), 1))
    e = m.computeDimensionlessHubbleParameter(z)
    c.ensure('shape', c.shape_eq(e, (n,)))
    c.forall('grid', [n], lambda k: c.eq(c.get(e, k), E(c, p, c.get(z, k))))
    c.ensure('reciprocal', c.eq(m.computeReciprocalDimensionlessHubbleParameter(z0), c.div(1, E(c, p, z0))))
    c.ensure('Hubble', c.eq(m.computeHubbleParameter(z0), 100 * p.h * E(c, p, z0)))
    H = m.computeHubbleParameter(z)
    c.forall('Hubble grid', [n], lambda k: c.eq(c.get(H, k), 100 * p.h * E(c, p, c.get(z, k))))
    c.ensure('matter', c.eq(m.Omega_m_of_z(z0), c.div(p.Omm * (1 + z0) ** 3, E2(c, p, z0))))
    m.params['h'].current_value = c.real('h2', positive=True, conc=(0.6, 0.8))
    m.params['Omm'].current_value = c.real('Omm2', positive=True, conc=(0.2, 0.4))
    q = ns(**{k: v.current_value for k, v in m.params.items()})
    c.require(E2(c, q, z0) > 0)
    c.ensure('current values', c.eq(m.computeHubbleParameter(z0), 100 * q.h * E(c, q, z0)))


@contract('P18', [C + f for f in ('computeComovingDistance', 'computeDimensionlessComovingDistance')], weight=2, trials=10)
def distances(c):
    """comoving distance: c/H0 times the integral of 1/E from today, at one redshift and at every redshift of a grid; other arguments are refused"""
    m, p = cosmology(c)
    n, z = grid(c)
    z0 = c.real('z0', positive=True, conc=(0.1, 2))
    e = c.fn('e', 1)
    if c.sym:
        m.computeDimensionlessHubbleParameter = lambda x: c.exp(e(x))  # any positive function
    d = lambda x: c.quad(lambda y: c.div(1, c.exp(e(y)) if c.sym else E(c, p, y)), 0, x)
    c.ensure('one redshift', c.eq(m.computeDimensionlessComovingDistance(z0), d(z0)))
    c.ensure('in Mpc', c.eq(m.computeComovingDistance(z0), c.div(m.c_km_s, 100 * p.h) * d(z0)))
    r = m.computeDimensionlessComovingDistance(z)
    c.ensure('shape', c.shape_eq(r, (n,)))
    c.forall('grid', [n], lambda k: c.eq(c.get(r, k), d(c.get(z, k))))
    R = m.computeComovingDistance(z)
    c.forall('grid in Mpc', [n], lambda k: c.eq(c.get(R, k), c.div(m.c_km_s, 100 * p.h) * d(c.get(z, k))))
    c.raises('neither number nor array', TypeError, lambda: m.computeDimensionlessComovingDistance('1'))


@contract('P18', [C + f for f in ('computeGrowthFactor', 'computeLogGrowthIntegrand', 'gamma')], weight=1, trials=10)
def growth_index(c):
    """growth: exp(-integral of Omega_m(z)^gamma / (1+z)) from today"""
    m, p = cosmology(c)
    n, z = grid(c)
    z0 = c.real('z0', positive=True, conc=(0.1, 2))
    om = c.fn('omega', 1)
    if c.is_native():
        om = lambda x: 0.3 + 0.1 * x
    m.Omega_m_of_z = om
    g = lambda x: c.exp(-c.quad(lambda y: c.div(om(y) ** p.gamma, 1 + y), 0, x))
    c.ensure('one redshift', c.eq(m.computeGrowthFactor(z0), g(z0)))
    D = m.computeGrowthFactor(z)
    c.ensure('shape', c.shape_eq(D, (n,)))
    c.forall('grid', [n], lambda k: c.eq(c.get(D, k), g(c.get(z, k))))
    c.raises('neither number nor array', TypeError, lambda: m.computeGrowthFactor([1]))


def spectrum(c, n, tag='P'):
    import numpy as np
    K = c.int('K', 1, conc=(3, 6))
    ps = c.target(PS + ':PowerSpectrum')()
    ps.k_grid = c.array('k', (K,), increasing=True, positive=True, gen=lambda r, s: np.linspace(0.01, 2, s[0]) + 0.001 * r.random())
    ps.lin_p_mm_z_k = c.array(tag + 'lin', (n, K), positive=True, conc=(1, 3))
    ps.nonlin_p_mm_z_k = c.array(tag + 'nl', (n, K), positive=True, conc=(1, 3))
    return ps, K


@contract('P18', [PS + '.PowerSpectrum.getGrowthFromLinearPowerSpectrum', C + 'rescalePowerSpectrumByComputedGrowth'], weight=2)
def growth_of_the_spectrum(c):
    """growth read from the linear spectrum: sqrt(P(z)/P(z0)) on the largest scale; rescaling gives the spectra the computed growth"""
    m, p = cosmology(c)
    n, z = grid(c)
    ps, K = spectrum(c, n)
    D = ps.getGrowthFromLinearPowerSpectrum()
    c.ensure('shape', c.shape_eq(D, (n,)))
    lin, nl = ps.lin_p_mm_z_k, ps.nonlin_p_mm_z_k
    L0, N0 = lin.copy(), nl.copy()
    c.forall('growth', [n], lambda k: c.eq(c.get(D, k), c.sqrt(c.div(c.get(L0, k, 0), c.get(L0, 0, 0)))))
    c.ensure('one today', c.eq(c.get(D, 0), 1))
    m.power_spectrum = ps
    m.growth_factor_z = c.array('D', (n,), positive=True, conc=(0.3, 1))
    m.rescalePowerSpectrumByComputedGrowth()
    for nm, new, old in (('linear', ps.lin_p_mm_z_k, L0), ('nonlinear', ps.nonlin_p_mm_z_k, N0)):
        c.forall(nm, [n, K], lambda k, j: c.eq(c.get(new, k, j) * c.get(L0, k, 0), c.get(old, k, j) * c.get(m.growth_factor_z, k) ** 2 * c.get(L0, 0, 0)))


@contract('P18', [C + f for f in ('evaluateOverRedshiftGrid', 'E_z', 'H_z', 'r_z', 'r_tilde_z', 'k_grid', 'transfer_function_k')], weight=2)
def tables(c):
    """the tables on the redshift grid hold E, r and growth of that grid; tables already present are kept; a missing grid is refused"""
    m, p = cosmology(c)
    c.raises('no grid', ValueError, lambda: m.evaluateOverRedshiftGrid())
    n, z = grid(c)
    m.z_grid = z
    f, g = c.fn('hubble', 1), c.fn('distance', 1)
    if c.is_native():
        f, g = (lambda x: 1 + x), (lambda x: 0.3 * x)
    per = {'hubble': [], 'distance': []}

    def table(name, fun):
        def h(x):
            per[name].append(x)
            return c.vector(n, lambda k: fun(c.get(x, k)))
        return h
    m.computeDimensionlessHubbleParameter, m.computeDimensionlessComovingDistance = table('hubble', f), table('distance', g)
    D = c.array('growth', (n,), positive=True)
    m.power_spectrum = ns(getGrowthFromLinearPowerSpectrum=lambda: D, k_grid=c.array('kk', (3,)), transfer_function=c.array('T', (3,)))
    given = c.choice('given', ['nothing', 'hubble', 'distance', 'growth'])
    X = c.array('X', (n,), positive=True)
    if given == 'hubble':
        m.dimensionless_hubble_array = X
    elif given == 'distance':
        m.dimensionless_comoving_distance_array = X
    elif given == 'growth':
        m.growth_factor_z = X
    m.evaluateOverRedshiftGrid()
    e = lambda k: c.get(X, k) if given == 'hubble' else f(c.get(z, k))
    r = lambda k: c.get(X, k) if given == 'distance' else g(c.get(z, k))
    c.forall('E', [n], lambda k: c.eq(c.get(m.E_z, k), e(k)))
    c.forall('H', [n], lambda k: c.eq(c.get(m.H_z, k), 100 * p.h * e(k)))
    c.forall('r', [n], lambda k: c.eq(c.get(m.r_z, k), c.div(m.c_km_s, 100 * p.h) * r(k)))
    c.forall('dimensionless r', [n], lambda k: c.eq(c.get(m.r_tilde_z, k), r(k)))
    c.forall('growth', [n], lambda k: c.eq(c.get(m.growth_factor_z, k), c.get(X if given == 'growth' else D, k)))
    c.ensure('k grid and transfer function', m.k_grid is m.power_spectrum.k_grid and m.transfer_function_k is m.power_spectrum.transfer_function)
    m.power_spectrum = None
    c.raises('no transfer function', Exception, lambda: m.transfer_function_k)


@contract('P18', [C + f for f in ('__init__', 'checkParameters', 'OmK')], weight=2)
def accepted_parameters(c):
    """w0 < 1 and |wa| < 2 for current and fiducial values, no curvature in a flat universe; parameters and flatness come together"""
    M = c.target(CM + ':Cosmology')
    err = c.target(CM + ':CosmologyError')
    R = c.target('seyfert.cosmology.parameter:PhysicalParameter')
    wide = {'w0': (-1.5, 1.5), 'wa': (-2.5, 2.5)}
    p = {k: cosmological(c, k, c.real(k, conc=wide.get(k, r)), c.real(k + '_f', conc=wide.get(k, r))) for k, r in RANGES.items()}
    flat = c.choice('flat', [True, False])
    close = c.choice('curvature', ['none', 'some'])
    if close == 'none':
        p['OmDE'].current_value = 1 - p['Omm'].current_value
    elif c.sym:
        c.require(c.abs(1 - p['Omm'].current_value - p['OmDE'].current_value) > c.frac(1, 10 ** 9))
    w, a = p['w0'], p['wa']
    bad = [w.current_value >= 1, w.fiducial >= 1, c.abs(a.current_value) >= 2, c.abs(a.fiducial) >= 2]
    ok = c.not_(c.or_(*bad)) if not (flat and close == 'some') else False
    try:
        M(params=p, flat=flat)
        made = True
    except err:
        made = False
    c.ensure('accepted exactly when valid', ok if made else c.not_(ok))
    c.raises('flatness missing', err, lambda: M(params=p))
    c.raises('parameters missing', err, lambda: M(flat=flat))


def step(c, x, lo, hi):
    """the smooth step: 0 below, 1 above, the polynomial with three vanishing derivatives at both ends in between"""
    t = c.div(x - lo, hi - lo)
    t = c.ite(t <= 0, 0 * t, c.ite(t >= 1, 1 + 0 * t, t))
    return 35 * t ** 4 - 84 * t ** 5 + 70 * t ** 6 - 20 * t ** 7


@contract('P18', ['seyfert.numeric.general.top_hat_filter', 'seyfert.numeric.general.smoothstep'], weight=1)
def top_hat(c):
    """the filter: 1 below 0.9 R, 0 above 1.1 R, smooth in between; one wavenumber or many"""
    f = c.target('seyfert.numeric.general:top_hat_filter')
    R, k0 = c.real('R', positive=True, conc=(0.5, 1.5)), c.real('k', positive=True, conc=(0.3, 2))
    K = c.int('K', 1, conc=(2, 6))
    k = c.array('ks', (K,), positive=True, conc=(0.3, 2))
    want = lambda x: 1 - step(c, x, c.frac(9, 10) * R, c.frac(11, 10) * R)
    c.ensure('one wavenumber', c.eq(f(k0, R), want(k0)))
    w = f(k, R)
    c.ensure('shape', c.shape_eq(w, (K,)))
    c.forall('wavenumbers', [K], lambda j: c.eq(c.get(w, j), want(c.get(k, j))))


@contract('P18', [C + 'sigmaR', C + 'computeSigmaR'], weight=2, trials=20)
def variance(c):
    """rms of the fluctuations at a radius: sqrt of the integral of k^2 P W^2 / 2 pi^2 over the linear spectrum today, for one radius or many"""
    m, p = cosmology(c)
    n, z = grid(c)
    ps, K = spectrum(c, n)
    c.require(K >= 2)
    m.power_spectrum = ps
    pi = c.np().pi
    W = c.fn('window', 2)
    if c.sym:
        c.patch('seyfert.numeric.general:top_hat_filter', lambda x, R: c.vector(K, lambda j: W(c.get(x, j), R)))

    def sigma(R):
        w = lambda k: W(k, c.div(1, R)) if c.sym else 1 - step(c, k, 0.9 / R, 1.1 / R)
        v = c.vector(K, lambda j: c.div(c.get(ps.k_grid, j) ** 2 * c.get(ps.lin_p_mm_z_k, 0, j) * w(c.get(ps.k_grid, j)) ** 2, 2 * pi ** 2))
        return c.sqrt(c.simps(v, ps.k_grid))
    R0 = c.real('R', positive=True, conc=(0.6, 50))
    c.ensure('one radius', c.eq(m.computeSigmaR(R0), sigma(R0)))
    q = c.int('radii', 1, conc=(2, 4))
    R = c.array('Rs', (q,), positive=True, conc=(0.6, 50))
    s = m.computeSigmaR(R)
    c.ensure('shape', c.shape_eq(s, (q,)))
    c.forall('radii', [q], lambda i: c.eq(c.get(s, i), sigma(c.get(R, i))))
    c.raises('neither', TypeError, lambda: m.computeSigmaR([1]))


def solver(c, cls, z, **settings):
    s = c.target(BS + ':' + cls).__new__(c.target(BS + ':' + cls))
    s.z_grid, s.cosmological_parameters = z, parameters(c)
    s.k_grid = s.transfer_function = s.lin_p_mm_z_k = s.nonlin_p_mm_z_k = None
    for k, v in settings.items():
        setattr(s, k, v)
    return s, ns(**{k: v.current_value for k, v in s.cosmological_parameters.items()})


@contract('P18', [BS + '.CAMBBoltzmannSolver.computeCAMBCosmologicalBasis', BS + '.CLASSBoltzmannSolver.computeCLASSCosmologicalBasis'], weight=1)
def parameters_of_the_codes(c):
    """the densities handed to the codes add up to the total matter density, with neutrinos counted once, and the curvature closes the budget"""
    n, z = grid(c)
    code = c.choice('code', ['CAMB', 'CLASS'])
    s, p = solver(c, code + 'BoltzmannSolver', z, k_max=c.real('k_max', positive=True, conc=(1, 50)))
    if code == 'CAMB':
        b = s.computeCAMBCosmologicalBasis()
        c.ensure('matter budget', c.eq(b['omch2'] + b['ombh2'] + b['omnuh2'], p.Omm * p.h ** 2))
        c.ensure('baryons', c.eq(b['ombh2'], p.Omb * p.h ** 2))
        c.ensure('neutrinos', c.eq(b['omnuh2'] * c.frac(9314, 100), p.mnu))
        c.ensure('curvature', c.eq(b['omk'], 1 - p.Omm - p.OmDE))
        c.ensure('others', c.and_(c.eq(b['hubble'], 100 * p.h), c.eq(b['w'], p.w0), c.eq(b['wa'], p.wa), c.eq(b['scalar_spectral_index'], p.ns)))
        c.ensure('names', set(b) == {'hubble', 'w', 'wa', 'scalar_spectral_index', 'omch2', 'ombh2', 'omnuh2', 'omk'})
        return
    b = s.computeCLASSCosmologicalBasis()
    c.ensure('matter budget', c.eq((b['Omega_cdm'] + b['Omega_b']) * p.h ** 2 + c.div(p.mnu * 100, 9314), p.Omm * p.h ** 2))
    c.ensure('curvature', c.abs(b['Omega_k'] - (1 - p.Omm - p.OmDE)) <= c.frac(1, 10 ** 6))
    c.ensure('others', c.and_(*[c.eq(b[k], v) for k, v in (('Omega_b', p.Omb), ('h', p.h), ('sigma8', p.sigma8), ('n_s', p.ns), ('m_ncdm', p.mnu), (
        'P_k_max_1/Mpc', s.k_max), ('z_max_pk', c.get(z, n - 1)), ('w0_fld', p.w0), ('wa_fld', p.wa), ('Omega_fld', p.OmDE))]))


@contract('P18', [BS + '.CAMBBoltzmannSolver.run', BS + '.CAMBBoltzmannSolver.computeCAMBRedshiftGroupsNumber', BS + '.CAMBBoltzmannSolver.getTransferFunctionFromResults',
                  PS + '.PowerSpectrum.getResultsFromMatterPowerGenerator'], weight=2, trials=10,
          bound='1, 2, 150, 151, 301 and 460 redshifts; every spectrum returned by the code')
def spectra_in_grid_order(c):
    """the redshifts are handed to CAMB in groups of at most 150; row i of both spectra is that of redshift i, whatever the grouping"""
    from pathlib import Path
    N = c.choice('redshifts', [1, 2, 150, 151, 301, 460])
    K = 3
    z0, dz = c.real('zfirst', positive=True, conc=(0.1, 0.2)), c.real('dz', positive=True, conc=(0.01, 0.02))
    z = z0 + dz * c.np().arange(N)
    s, p = solver(c, 'CAMBBoltzmannSolver', z, k_max=1.5, k_per_logint=20, ini_file=Path('x.ini'))
    s.n_z_division = s.computeCAMBRedshiftGroupsNumber(N)
    kk = c.array('kcamb', (K,), increasing=True, positive=True)
    T = c.array('transfer', (10, K, 1))
    asked, now = [], {}
    lin, nl = c.fn('Plin', 2), c.fn('Pnl', 2)
    if c.is_native():
        lin, nl = (lambda x, k: 1 + x * k), (lambda x, k: 2 + x * k)

    def setter(redshifts=None, kmax=None, k_per_logint=None, nonlinear=None, accurate_massive_neutrino_transfers=None):
        now.update(z=redshifts, kmax=kmax, n=k_per_logint)
        asked.append(redshifts)

    def power(f):
        def g(hubble_units=True, k_hunit=True, have_power_spectra=None, params=None):
            c.ensure('units of Mpc', hubble_units is False and k_hunit is False)
            zz = now['z']
            n = int(c.len(zz))
            return kk, zz, c.np().array([[f(c.get(zz, i), c.get(kk, j)) for j in range(K)] for i in range(n)])
        return g
    bkg = ns(get_linear_matter_power_spectrum=power(lin), get_nonlinear_matter_power_spectrum=power(nl))
    camb = ns(read_ini=lambda f: ns(set_matter_power=setter), get_background=lambda q: bkg,
              get_results=lambda q: ns(get_matter_transfer_data=lambda: ns(transfer_data=T)), model=ns(Transfer_tot=7))
    c.stub(BS + ':camb', camb)
    s.run()
    c.ensure('groups', sum(int(c.len(a)) for a in asked) == N and max(int(c.len(a)) for a in asked) <= 150)
    ps = c.target(PS + ':PowerSpectrum')()
    ps.boltzmann_solver = s
    ps.getResultsFromMatterPowerGenerator()
    c.ensure('grids', ps.z_grid is z and ps.k_grid is kk)
    c.ensure('shapes', c.and_(c.shape_eq(ps.lin_p_mm_z_k, (N, K)), c.shape_eq(ps.nonlin_p_mm_z_k, (N, K))))
    for i in sorted({0, 1, N // 2, 149, 150, 151, 152, 153, 154, 155, 299, 300, 301, N - 2, N - 1} & set(range(N))):
        for j in range(K):
            c.ensure('row of its redshift', c.and_(c.eq(c.get(ps.lin_p_mm_z_k, i, j), lin(c.get(z, i), c.get(kk, j))),
                                                   c.eq(c.get(ps.nonlin_p_mm_z_k, i, j), nl(c.get(z, i), c.get(kk, j)))))
    c.forall('transfer function', [K], lambda j: c.eq(c.get(ps.transfer_function, j), c.get(T, 6, j, 0)))


@contract('P18', [BS + '.CLASSBoltzmannSolver.run'], weight=1, trials=10)
def class_spectra(c):
    """CLASS: both spectra hold P(k, z) at every redshift and wavenumber of the grids"""
    N, K = c.choice('redshifts', [1, 3]), 4
    z = c.array('z', (N,), increasing=True, positive=True)
    k0 = c.real('k_min', positive=True, conc=(0.001, 0.01))
    s, p = solver(c, 'CLASSBoltzmannSolver', z, k_max=c.real('k_max', positive=True, conc=(1, 50)), k_min=k0, n_k=K)
    c.require(k0 < s.k_max)
    lin, nl = c.fn('Plin', 2), c.fn('Pnl', 2)
    if c.is_native():
        lin, nl = (lambda k, x: 1 + x * k), (lambda k, x: 2 + x * k)
    log = []
    mod = c.target(BS)
    mod.Class = lambda: ns(set=lambda q: log.append(('set', q)), compute=lambda: log.append('compute'), pk_lin=lin, pk=nl)
    s.computeCLASSCosmologicalBasis = lambda: 'basis'
    s.run()
    c.ensure('computed once with the parameters', log == [('set', 'basis'), 'compute'])
    c.ensure('shapes', c.and_(c.shape_eq(s.lin_p_mm_z_k, (N, K)), c.shape_eq(s.nonlin_p_mm_z_k, (N, K)), c.shape_eq(s.k_grid, (K,))))
    c.ensure('k grid ends', c.and_(c.eq(c.get(s.k_grid, 0), s.k_min), c.eq(c.get(s.k_grid, K - 1), s.k_max)))
    c.forall('spectra', [(0, N), (0, K)], lambda i, j: c.and_(c.eq(c.get(s.lin_p_mm_z_k, i, j), lin(c.get(s.k_grid, j), c.get(z, i))),
                                                              c.eq(c.get(s.nonlin_p_mm_z_k, i, j), nl(c.get(s.k_grid, j), c.get(z, i)))))


@contract('P18', [BS + '.CAMBBoltzmannSolver.' + f for f in ('finetuneScalarAmpFromSigma8', 'readCAMBIniFileToDict', 'writeDictToIniFile', 'writeUpdatedCAMBIniFile',
                                                             'computeCAMBRedshiftGroupsNumber')], weight=1, mode='bounded', trials=30,
          bound='30 random amplitudes and parameter sets; a stand-in code whose sigma8 grows as the square root of the amplitude')
def amplitude_tuning(c):
    """the initial file gets the updated parameters, keeping the others, and an amplitude giving the requested sigma8"""
    import re
    from pathlib import Path
    S = c.target(BS + ':CAMBBoltzmannSolver')
    with c.scratch_dir(None) as where:
        where = Path(str(where))
        ini = where / 'ref' / 'p.ini'
        ini.parent.mkdir()
        ini.write_text('# comment\nscalar_amp = 2.1e-9\nhubble = 50\nw = -1\nother(1) = a b\n\nnot an entry\n')
        c.ensure('read', S.readCAMBIniFileToDict(ini) == {'scalar_amp': '2.1e-9', 'hubble': '50', 'w': '-1', 'other(1)': 'a b'})
        s, p = solver(c, 'CAMBBoltzmannSolver', None, ref_ini_file=ini, ini_file=where / 'p.ini')
        s.writeUpdatedCAMBIniFile()
        d = S.readCAMBIniFileToDict(s.ini_file)
        b = s.computeCAMBCosmologicalBasis()
        c.ensure('parameters updated', all(float(d[k]) == b[k] for k in b) and d['other(1)'] == 'a b' and d['scalar_amp'] == '2.1e-9')
        norm = c.real('norm', conc=(0.5, 1.5))

        def results(q):
            return ns(get_sigma8_0=lambda: norm * (q.As / 2e-9) ** 0.5)

        def read(f):
            return ns(As=float(S.readCAMBIniFileToDict(f)['scalar_amp']), set_matter_power=lambda **k: None, NonLinear=None)
        c.stub(BS + ':camb', ns(read_ini=read, get_results=results, model=ns(NonLinear_none=0)))
        s.finetuneScalarAmpFromSigma8()
        after = S.readCAMBIniFileToDict(s.ini_file)
        s8 = norm * (float(after['scalar_amp']) / 2e-9) ** 0.5
        c.ensure('requested amplitude', abs(s8 / p.sigma8 - 1) < 1e-9)
        c.ensure('others kept', {k: v for k, v in after.items() if k != 'scalar_amp'} == {k: v for k, v in d.items() if k != 'scalar_amp'})
    for n in range(1, 700):
        g = S.computeCAMBRedshiftGroupsNumber(n)
        c.ensure('groups of at most 150', g >= 1 and -(-n // g) <= 150 and (g - 1) * 150 < n)


@contract('P18', [PS + '.PowerSpectrum.' + f for f in ('__init__', 'evaluateLinearAndNonLinearPowerSpectra', 'getResultsFromMatterPowerGenerator')] + [
    BS + '.CAMBBoltzmannSolver.__init__', BS + '.CAMBBoltzmannSolver.evaluateLinearAndNonLinearPowerSpectra', BS + '.ExternalBoltzmannSolver.__init__',
    BS + '.CLASSBoltzmannSolver.__init__', BS + '.CLASSBoltzmannSolver.evaluateLinearAndNonLinearPowerSpectra', C + 'evaluatePowerSpectrum'], weight=1, trials=20)
def chosen_code(c):
    """the code chosen runs with the grid, settings and parameters of the configuration, initial file first, then the amplitude, then the spectra"""
    from pathlib import Path
    code = c.choice('code', ['CAMB', 'CLASS'])
    n, z = grid(c)
    log = []
    kmax = c.choice('k_max', ['50', '1.5'])
    cfg = ns(boltzmann_code=code, z_grid=z, camb_ini_path=Path('/nowhere/ini/ref.ini'), camb_settings={'k_max': kmax, 'k_per_logint': '20'},
             class_settings={'k_max': kmax, 'k_min': '0.001', 'n_k': '7'})
    res = {k: c.array(k, (3,)) for k in ('k_grid', 'lin_p_mm_z_k', 'nonlin_p_mm_z_k', 'transfer_function')}
    m, p = cosmology(c)

    def run(self):
        log.append(('run', self))
        self.__dict__.update(res)
    cam, cla = c.target(BS + ':CAMBBoltzmannSolver'), c.target(BS + ':CLASSBoltzmannSolver')
    c.stub(BS + ':CAMBBoltzmannSolver.writeUpdatedCAMBIniFile', lambda self: log.append(('write', self)))
    c.stub(BS + ':CAMBBoltzmannSolver.finetuneScalarAmpFromSigma8', lambda self: log.append(('tune', self)))
    c.stub(BS + ':CAMBBoltzmannSolver.run', run)
    c.stub(BS + ':CLASSBoltzmannSolver.run', run)
    if c.sym and code == 'CAMB':
        c.stub(BS + ':CAMBBoltzmannSolver.computeCAMBRedshiftGroupsNumber', staticmethod(lambda q: ('groups', q)))
    m.evaluatePowerSpectrum('/nowhere/work', cfg)
    ps = m.power_spectrum
    s = ps.boltzmann_solver
    c.ensure('solver', isinstance(s, cam if code == 'CAMB' else cla))
    c.ensure('steps', [a for a, _ in log] == (['write', 'tune', 'run'] if code == 'CAMB' else ['run']) and all(x is s for _, x in log))
    c.ensure('parameters and grid', s.cosmological_parameters is m.params and ps.z_grid is z and s.z_grid is z)
    c.ensure('largest wavenumber', s.k_max == float(kmax))
    if code == 'CAMB':
        c.ensure('settings', s.k_per_logint == 20 and s.ref_ini_file == cfg.camb_ini_path and s.ini_file == Path('/nowhere/work/ref.ini'))
        if c.sym:
            c.ensure('groups', s.n_z_division[0] == 'groups' and c.eq(s.n_z_division[1], n))
    else:
        c.ensure('settings', s.n_k == 7)
        c.ensure('k_min', c.eq(s.k_min, c.frac(1, 1000)))
    c.ensure('results', all(getattr(ps, k) is res[k] for k in res))
