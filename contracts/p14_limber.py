"""Lensing and clustering weights, kernels, Limber power spectrum and the redshift integral: the chain from densities to spectra."""
import itertools
from types import SimpleNamespace
from pyver.api import contract

WF, KF, CE = 'seyfert.cosmology.weight_functions', 'seyfert.cosmology.kernel_functions', 'seyfert.cosmology.c_ells'
LW = WF + '.LensingWeightFunction.'
AC = CE + '.AngularCoefficient.'
PH, SP, WL, VD = 'PhotometricGalaxy', 'SpectroscopicGalaxy', 'Lensing', 'Void'


def zgrid(c, lo=2):
    import numpy as np
    m = c.int('nz', lo, conc=(max(lo, 5), 9))
    return m, c.array('z', (m,), increasing=True, positive=True, gen=lambda r, s: np.linspace(0.05, 2.4, s[0]) + (0.01 * r.random() if r.random() < 0.4 else 0.25 * r.random(s[0])))


def nuisance(c, current, fixed=()):
    """nuisance parameters with the given current values, whatever their fiducial values"""
    P = c.target('seyfert.cosmology.parameter:PhysicalParameter')
    return {k: P(name=k, kind=P.NUISANCE_PAR_STRING, probe=PH, fiducial=c.real('fiducial_' + k, conc=(0.5, 2)), current_value=v, is_free_parameter=k not in fixed)
            for k, v in current.items()}


def lensing(c, n, m, z, method='simpson', ia=False):
    ns = SimpleNamespace
    cos = ns(r_z=c.array('r', (m,), positive=True, conc=(1, 3)), r_tilde_z=c.array('rt', (m,), positive=True, conc=(0.1, 1)), Omm=c.real('Omm', positive=True, conc=(0.2, 0.4)),
             H0=c.real('H0', positive=True, conc=(60, 75)), c_km_s=c.real('c', positive=True, conc=(2, 3)), H_z=c.array('H', (m,), positive=True, conc=(60, 150)),
             growth_factor_z=c.array('D', (m,), positive=True, conc=(0.3, 1)))
    w = c.target(WF + ':LensingWeightFunction')(cosmology=cos, probe_config=ns(specific_settings={'include_IA': ia}), angular_config=ns(lensing_efficiency_integration_method=method))
    w.density = ns(norm_density_iz=c.array('n', (n, m), positive=True), n_bins=n, z_max=c.real('z_max', positive=True, conc=(3, 4)))
    w.z_grid = z
    return w, cos


def efficiency(c, w, cos, z, m, i, k):
    """integral over the redshifts from the k-th on of n_i (1 - r_k / r)"""
    v = c.vector(m - k, lambda j: c.get(w.density.norm_density_iz, i, k + j) * (1 - c.div(c.get(cos.r_z, k), c.get(cos.r_z, k + j))))
    return c.simps(v, z[k:])


@contract('P14', [LW + 'computeLensingEfficiency', LW + 'computeLensingEfficiencyAtBin'], weight=2)
def lensing_efficiency(c):
    """lensing efficiency at a grid redshift: integral over the background redshifts of n(z')(1 - r(z)/r(z'))"""
    n = c.int('bins', 1, conc=(1, 3))
    m, z = zgrid(c)
    w, cos = lensing(c, n, m, z)
    e = w.computeLensingEfficiency(z)
    c.ensure('shape', c.shape_eq(e, (n, m)))
    c.forall('efficiency', [n, m], lambda i, k: c.eq(c.get(e, i, k), efficiency(c, w, cos, z, m, i, k)))


@contract('P14', [LW + 'computeLensingEfficiencyAtBin'], weight=1)
def efficiency_at_one_redshift(c):
    """at a single redshift of the grid the efficiency is the tabulated one; unsupported methods and arguments are refused"""
    n = c.int('bins', 1, conc=(1, 3))
    m, z = zgrid(c)
    what = c.choice('what', ['simpson', 'other'])
    w, cos = lensing(c, n, m, z, what)
    i, k = c.int('bin', 0, conc=(0, 2)), c.int('position', 0, conc=(0, 4))
    c.require(i < n)
    c.require(k < m)
    if what == 'other':
        c.raises('unknown method', ValueError, lambda: w.computeLensingEfficiencyAtBin(i, z))
        return
    c.raises('not a redshift', TypeError, lambda: w.computeLensingEfficiencyAtBin(i, [1]))
    if c.sym:
        def argmin(a):
            c.forall('nearest redshift', [m], lambda j: c.implies(j != k, c.get(a, k) < c.get(a, j)))
            return k
        c.patch(WF + ':np.argmin', argmin)
    e = w.computeLensingEfficiencyAtBin(i, c.get(z, k))
    c.ensure('efficiency', c.eq(e, efficiency(c, w, cos, z, m, i, k)))


@contract('P14', [LW + 'computeLensingEfficiencyAtBin'], weight=1, trials=20)
def efficiency_by_quadrature(c):
    """the adaptive method integrates n(x)(1 - r(z)/r(x)) from z to the end of the domain, for one redshift and for a grid"""
    m, z = zgrid(c)
    w, cos = lensing(c, 2, m, z, 'quad')
    dens, dist = c.fn('density', 2), c.fn('distance', 1)
    if c.is_native():
        dens, dist = (lambda i, x: 1 + 0.3 * i + 0.1 * x), (lambda x: 0.5 + x)
    w.density.computeNormalizedDensityAtBinAndRedshift = dens
    cos.computeComovingDistance = dist
    i = c.int('bin', 0, 1, conc=(0, 1))
    c.require(dist(c.get(z, 0)) > 0)
    exp = lambda z0: c.quad(lambda x: dens(i, x) * (1 - c.div(dist(z0), dist(x))), z0, w.density.z_max)
    c.numpy_division()
    e = w.computeLensingEfficiencyAtBin(i, z)
    c.ensure('shape', c.shape_eq(e, (m,)))
    c.forall('efficiency', [m], lambda k: c.eq(c.get(e, k), exp(c.get(z, k))))
    z0 = c.real('z0', positive=True, conc=(0.1, 2))
    c.ensure('one redshift', c.eq(w.computeLensingEfficiencyAtBin(i, z0), exp(z0)))


@contract('P14', [LW + 'evaluateOverRedshiftGrid', LW + 'computeIntrinsicAlignmentContribution', WF + '.WeightFunction.evaluateOverRedshiftGrid',
                  WF + '.WeightFunction.n_bins'], weight=2)
def lensing_weight(c):
    """lensing weight: 3/2 Omm (1+z)(H0/c) r(z) x efficiency, minus the intrinsic alignment term when it is enabled"""
    n = c.int('bins', 1, conc=(1, 3))
    m, z = zgrid(c)
    ia = c.choice('alignment', [False, True])
    w, cos = lensing(c, n, m, z, ia=ia)
    w.z_grid = None
    t = c.array('table', (n, m), positive=True)
    seen = []
    w.computeLensingEfficiency = lambda zz: (seen.append(zz), t)[1]
    own = c.choice('densities', ['given', 'to be evaluated'])
    nz = w.density.norm_density_iz
    if own == 'to be evaluated':
        w.density.norm_density_iz = None

        def evaluate(zz):
            w.density.norm_density_iz = nz if zz is z else None
        w.density.evaluate = evaluate
    if ia:
        K = c.int('lum', 2, conc=(3, 6))
        zl = c.array('zl', (K,), increasing=True, positive=True)
        L = c.array('lumi', (K,), positive=True, conc=(0.5, 2))
        c.stub(WF + ':np.loadtxt', lambda *a, **k: (zl, L))
        p = {k: c.real(k, positive=True, conc=(0.1, 2)) for k in ('aIA', 'cIA', 'etaIA', 'betaIA')}
        w.nuisance_params = nuisance(c, p, fixed=c.choice('fixed', [('aIA', 'etaIA'), tuple(p)]))
        s = c.spline(zl, L, k=1)
    w.evaluateOverRedshiftGrid(z)
    c.ensure('shape', c.shape_eq(w.w_bin_z, (n, m)))

    def expected(i, k):
        zk = c.get(z, k)
        v = 1.5 * cos.Omm * (1 + zk) * c.div(cos.H0, cos.c_km_s) * c.get(cos.r_tilde_z, k) * c.get(t, i, k) if c.is_native() else \
            c.frac(3, 2) * cos.Omm * (1 + zk) * c.div(cos.H0, cos.c_km_s) * c.get(cos.r_tilde_z, k) * c.get(t, i, k)
        if ia:
            F = (1 + zk) ** p['etaIA'] * s(zk) ** p['betaIA']
            v = v - c.div(p['aIA'] * p['cIA'] * F * cos.Omm * c.get(cos.H_z, k) * c.get(nz, i, k), c.get(cos.growth_factor_z, k) * cos.c_km_s)
        return c.eq(c.get(w.w_bin_z, i, k), v)
    c.forall('weight', [n, m], expected)
    c.ensure('grid kept', w.z_grid is z and seen and seen[0] is z)


def weight(c, cls, n, m, tag, evaluated=True):
    w = c.target(WF + ':' + cls)()
    tab = c.array(tag, (n, m))
    calls = []

    def evaluate(z):
        calls.append(z)
        w.w_bin_z = tab
    w.evaluateOverRedshiftGrid = evaluate
    if evaluated:
        w.w_bin_z = tab
    return w, tab, calls


@contract('P14', [KF + '.KernelFunction.evaluateOverRedshiftGrid', KF + '.KernelFunction.__init__', KF + '.KernelFunction.obs_key', WF + '.WeightFunction.probe',
                  WF + '.WeightFunction.is_evaluated'], weight=2)
def kernel(c):
    """kernel of bins i and j: w_i w_j c / (H r^2), symmetric for an auto-correlation, evaluated once unless asked again"""
    p, q = c.choice('pair', [(WL, WL), (PH, SP), (PH, WL), (VD, VD), (WL, VD)])
    n = c.int('n1', 1, conc=(1, 4))
    k2 = n if p == q else c.int('n2', 1, conc=(1, 4))
    m, z = zgrid(c, 1)
    cos = SimpleNamespace(c_km_s=c.real('c', positive=True, conc=(1, 3)), H_z=c.array('H', (m,), positive=True, conc=(1, 3)), r_z=c.array('r', (m,), positive=True, conc=(1, 3)))
    ev = c.choice('weights', ['ready', 'to do'])
    w1, t1, a1 = weight(c, p + 'WeightFunction', n, m, 'w1', ev == 'ready')
    w2, t2, a2 = weight(c, q + 'WeightFunction', k2, m, 'w2', ev == 'ready')
    if p == q:
        t2 = t1
    K = c.target(KF + ':KernelFunction')(p, q, weight1=w1, weight2=w2, cosmology=cos)
    c.ensure('key', K.obs_key == f'{p}_{q}')
    K.evaluateOverRedshiftGrid(z)
    c.ensure('each weight evaluated when needed', len(a1) == (ev != 'ready') and len(a2) == (ev != 'ready' and p != q) and all(x is z for x in a1 + a2))
    c.ensure('shape', c.shape_eq(K.k_ijz, (n, k2, m)))
    c.forall('kernel', [n, k2, m], lambda i, j, k: c.eq(c.get(K.k_ijz, i, j, k), c.div(
        c.get(t1, i, k) * c.get(t2, j, k) * cos.c_km_s, c.get(cos.H_z, k) * c.get(cos.r_z, k) ** 2)))
    if p == q:
        c.forall('symmetric', [n, n, m], lambda i, j, k: c.eq(c.get(K.k_ijz, i, j, k), c.get(K.k_ijz, j, i, k)))
    before = K.k_ijz
    K.evaluateOverRedshiftGrid(z)
    c.ensure('kept', K.k_ijz is before)
    w1.w_bin_z = c.array('later', (n, m))
    K.evaluateOverRedshiftGrid(z, overwrite=True)
    if p != q:
        c.forall('asked again', [n, k2, m], lambda i, j, k: c.eq(c.get(K.k_ijz, i, j, k), c.div(
            c.get(w1.w_bin_z, i, k) * c.get(t2, j, k) * cos.c_km_s, c.get(cos.H_z, k) * c.get(cos.r_z, k) ** 2)))


@contract('P14', [KF + '.KernelFunction.__init__', CE + '.AngularCoefficient.__init__'], weight=1, trials=10)
def mismatched_weights(c):
    """weights of another probe than the declared one are refused"""
    a, b = c.target(WF + ':LensingWeightFunction')(), c.target(WF + ':PhotometricGalaxyWeightFunction')()
    K = c.target(KF + ':KernelFunction')
    c.raises('first', Exception, lambda: K(PH, PH, weight1=a, weight2=b))
    c.raises('second', Exception, lambda: K(WL, WL, weight1=a, weight2=b))
    k = K(weight1=a, weight2=b)
    c.ensure('probes of the weights', (k.probe1, k.probe2) == (WL, PH))
    k.cosmology = None
    C = c.target(CE + ':AngularCoefficient')
    c.raises('other kernel', Exception, lambda: C(probe1=PH, probe2=PH, kernel=k))
    cl = C(kernel=k)
    c.ensure('probes of the kernel', (cl.probe1, cl.probe2, cl.obs_key, cl.is_auto_correlation) == (WL, PH, 'Lensing_PhotometricGalaxy', False))


@contract('P14', [AC + 'evaluateLimberApproximatedPowerSpectrum', AC + 'applyVoidsCutToLimberPowerSpectrum', 'seyfert.numeric.general.smoothstep'], weight=3, trials=20)
def limber_power(c):
    """Limber power spectrum: interpolation (in log k, log P) at the grid redshift and k = (l + 1/2) / r, smoothly cut for voids"""
    import numpy as np
    p, q = c.choice('pair', [(PH, PH), (WL, VD), (VD, WL), (VD, VD), (PH, SP)])
    m, z = zgrid(c, 4)
    L, K = c.int('L', 1, conc=(1, 4)), c.int('K', 4, conc=(6, 9))
    cl = c.target(CE + ':AngularCoefficient')(probe1=p, probe2=q)
    kg = c.array('k', (K,), increasing=True, positive=True, gen=lambda r, s: np.logspace(-3, 1, s[0]))
    P = c.array('P', (m, K), positive=True, conc=(1, 3))
    r = c.array('r', (m,), positive=True, gen=lambda rr, s: np.linspace(100, 2000, s[0]) + rr.random())
    s = {'kx': c.choice('kx', [1, 3]), 'ky': 3}
    cl.cosmology = SimpleNamespace(z_grid=z, r_z=r, power_spectrum=SimpleNamespace(k_grid=kg, nonlin_p_mm_z_k=P))
    cl.angular_config = SimpleNamespace(limber_spline_kx=s['kx'], limber_spline_ky=3, limber_spline_s=0)
    cut, width = c.real('cut', positive=True, conc=(0.05, 0.5)), c.real('width', positive=True, conc=(0.01, 0.04))
    cl.forecast_config = SimpleNamespace(probe_configs={VD: SimpleNamespace(specific_settings={'void_kcut_invMpc': cut, 'void_kcut_width_invMpc': width})})
    cl.l_bin_centers = c.array('ell', (L,), increasing=True, positive=True, conc=(10, 1000))
    cl.evaluateLimberApproximatedPowerSpectrum()
    f = c.spline2(z, c.np().log10(kg), c.np().log10(P), kx=s['kx'], ky=3)

    def expected(l, k):
        kk = c.div(c.get(cl.l_bin_centers, l) + c.frac(1, 2), c.get(r, k))
        v = c.exp10(f(c.get(z, k), c.log10(kk), grid=False))
        if VD in (p, q):
            t = c.div(kk - (cut - width), 2 * width)
            t = c.ite(t <= 0, 0 * t, c.ite(t >= 1, 1 + 0 * t, t))
            v = v * (1 - (35 * t ** 4 - 84 * t ** 5 + 70 * t ** 6 - 20 * t ** 7))
        return c.eq(c.get(cl.limber_power_spectrum_l_z, l, k), v)
    c.ensure('shape', c.shape_eq(cl.limber_power_spectrum_l_z, (L, m)))
    c.forall('power', [L, m], expected)


def coefficient(c, p, q, n1, n2, m, z, offdiag=True):
    L = c.int('L', 1, conc=(1, 4))
    cl = c.target(CE + ':AngularCoefficient')(probe1=p, probe2=q)
    ns = SimpleNamespace
    cl.kernel = ns(weight1=ns(n_bins=n1), weight2=ns(n_bins=n2), k_ijz=c.array('kernel', (n1, n2, m), symmetric=False), obs_key=f'{p}_{q}')
    cl.cosmology = ns(z_grid=z)
    cl.l_bin_centers = c.array('ell', (L,), increasing=True, positive=True)
    cl.limber_power_spectrum_l_z = c.array('power', (L, m), positive=True)
    cl.angular_config = ns(cl_integration_method='simpson')
    cl.forecast_config = ns(verbose=False, probe_configs={SP: ns(specific_settings={'compute_gcsp_cl_offdiag': offdiag})})
    return cl, L


@contract('P14', [AC + f for f in ('evaluateAngularCorrelation', 'computeClIntegral', 'getLimberRedshiftIntegrand', 'n_i', 'n_j', 'n_ell')], weight=3)
def angular_correlation(c):
    """spectra: redshift integral of kernel x Limber power per multipole and pair of bins; symmetric for auto-correlations, whose spectroscopic off-diagonal is skipped on request"""
    p, q = c.choice('pair', [(PH, PH), (SP, SP), (WL, WL), (PH, SP), (WL, SP)])
    off = c.choice('spectroscopic off-diagonal', [True, False])
    n1 = c.int('n1', 1, conc=(1, 4))
    n2 = n1 if p == q else c.int('n2', 1, conc=(1, 4))
    m, z = zgrid(c)
    cl, L = coefficient(c, p, q, n1, n2, m, z, off)
    cl.evaluateAngularCorrelation()
    c.ensure('shape', c.shape_eq(cl.c_lij, (L, n1, n2)))
    K, P = cl.kernel.k_ijz, cl.limber_power_spectrum_l_z

    def integral(l, i, j):
        return c.simps(c.vector(m, lambda k: c.get(P, l, k) * c.get(K, i, j, k)), z)
    if p != q:
        c.forall('spectrum', [L, n1, n2], lambda l, i, j: c.eq(c.get(cl.c_lij, l, i, j), integral(l, i, j)))
        return
    skip = p == SP and not off
    c.forall('diagonal', [L, n1], lambda l, i: c.eq(c.get(cl.c_lij, l, i, i), integral(l, i, i)))
    c.forall('upper part', [L, n1, n1], lambda l, i, j: c.implies(i < j, c.eq(c.get(cl.c_lij, l, i, j), 0 if skip else integral(l, i, j))))
    c.forall('symmetric', [L, n1, n1], lambda l, i, j: c.eq(c.get(cl.c_lij, l, i, j), c.get(cl.c_lij, l, j, i)))


@contract('P14', [AC + 'computeClIntegral'], weight=2, trials=40)
def integration_method(c):
    """the redshift integral uses the configured method on the grid of the spectrum; unknown methods and grids unfit for Romberg are refused"""
    import numpy as np
    method = c.choice('method', ['simpson', 'romberg', 'quad', 'newton-cotes_1', 'newton-cotes_4', 'newton-cotes_6', 'other'])
    N = c.choice('points', [5, 9, 17, 12])
    L = c.int('L', 1, conc=(1, 3))
    x0, dx = c.real('x0', positive=True, conc=(0.1, 1)), c.real('dx', positive=True, conc=(0.05, 0.3))
    z = x0 + dx * c.np().arange(N)
    y = c.array('y', (L, N))
    cl = c.target(CE + ':AngularCoefficient')(probe1=PH, probe2=PH)
    cl.cosmology = SimpleNamespace(z_grid=z)
    cl.angular_config = SimpleNamespace(cl_integration_method=method)
    f = lambda: cl.computeClIntegral(y, axis=-1)
    if method == 'other':
        c.raises('unknown method', c.target(CE + ':ClError'), f)
    elif method == 'romberg' and N == 12:
        c.raises('not 2^k+1 points', ValueError, f)
    else:
        r = f()
        c.ensure('shape', c.shape_eq(r, (L,)))
        if method == 'simpson':
            c.forall('value', [L], lambda l: c.eq(c.get(r, l), c.simps(y[l], z)))
        elif method == 'quad':
            c.forall('value', [L], lambda l: c.eq(c.get(r, l), c.quad(lambda x: c.spline(z, y[l], k=1)(x), c.get(z, 0), c.get(z, N - 1))))
        elif method != 'romberg':
            I = c.target('seyfert.numeric.integration:CompositeNewtonCotesIntegrator')
            e = I(x=z, y=y, order=int(method[-1]), axis=-1).computeIntegral()
            c.forall('value', [L], lambda l: c.eq(c.get(r, l), c.get(e, l)))
        else:
            c.forall('linear', [L], lambda l: c.implies(c.and_(*[c.eq(c.get(y, l, k), 0) for k in range(N)]), c.eq(c.get(r, l), 0)))


CO = CE + '.AngularCoefficientsCollector.'


@contract('P14', [CO + 'setUp', CO + 'evaluateAngularCoefficients', CO + '__getitem__', CO + 'probes', CO + 'probes_combinations', AC + 'setUp', AC + '__init__'], weight=2, trials=20)
def all_spectra(c):
    """every pair of probes gets one spectrum, built from the weights of its two probes, their densities, parameters and multipoles"""
    probes = c.choice('probes', [[PH], [PH, SP], [SP, PH, WL], [WL, VD], [PH, SP, WL, VD]])
    m, z = zgrid(c)
    ns = SimpleNamespace
    cos, fid = ns(z_grid=z, c_km_s=c.real('c', positive=True), H_z=c.array('H', (m,), positive=True), r_z=c.array('r', (m,), positive=True)), ns()
    made, ready = {}, []
    n = {p: k + 1 for k, p in enumerate(probes)}
    tabs = {p: c.array('w_' + p, (n[p], m)) for p in probes}

    def build(probe, probe_config=None, nuisance_params=None, cosmology=None, fiducial_cosmology=None, angular_config=None):
        w = c.target(WF + ':' + probe + 'WeightFunction')()
        w.setUp = lambda: ready.append(('setup', probe, w.density))

        def evaluate(zz):
            ready.append(('evaluated', probe, zz))
            w.w_bin_z = tabs[probe]
        w.evaluateOverRedshiftGrid = evaluate
        made.setdefault(probe, []).append((w, probe_config, nuisance_params, cosmology, fiducial_cosmology, angular_config))
        return w
    c.stub(WF + ':weight_function_for_probe', build)
    PP = c.target('seyfert.cosmology.parameter:PhysicalParametersCollection')()
    P1 = c.target('seyfert.cosmology.parameter:PhysicalParameter')
    for p in probes:
        for k in range(n[p]):
            PP['b%s%d' % (p[0], k)] = P1(name='b%s%d' % (p[0], k), kind=P1.NUISANCE_PAR_STRING, probe=p, fiducial=1.0, current_value=1.0, is_free_parameter=True)
    PP['h'] = P1(name='h', kind=P1.COSMO_PAR_STRING, fiducial=0.7, current_value=0.7, is_free_parameter=True)
    own = {p: (c.array('l_' + p, (k + 2,), increasing=True, positive=True), c.array('dl_' + p, (k + 2,), positive=True)) for k, p in enumerate(probes)}
    conf = {p: ns(l_bin_centers=own[p][0], l_bin_widths=own[p][1], specific_settings={'compute_gcsp_cl_offdiag': True}) for p in probes}
    fc = ns(verbose=False, present_probes=probes, probe_configs=conf, probes_combinations=list(itertools.combinations_with_replacement(probes, 2)),
            getMultipoleArraysForProbeComb=lambda key: own[key.split('_')[0]])
    ac = ns(cl_integration_method='simpson')
    dens = {p: ns(n_bins=n[p]) for p in probes}
    c.stub(CE + ':AngularCoefficient.evaluateLimberApproximatedPowerSpectrum', lambda self: setattr(
        self, 'limber_power_spectrum_l_z', c.array('pow_' + self.obs_key, (c.len(self.l_bin_centers), m), positive=True)))
    coll = c.target(CE + ':AngularCoefficientsCollector')(phys_params=PP, cosmology=cos, fiducial_cosmology=fid, forecast_config=fc, angular_config=ac)
    c.raises('not before set up', c.target(CE + ':ClError'), lambda: coll.evaluateAngularCoefficients())
    coll.setUp(dens)
    c.ensure('one weight per probe', sorted(made) == sorted(probes) and all(len(v) == 1 for v in made.values()))
    for p in probes:
        w, pc, nuis, cc, ff, aa = made[p][0]
        c.ensure('inputs of ' + p, pc is conf[p] and cc is cos and ff is fid and aa is ac and w.density is dens[p] and
                 sorted(nuis) == sorted('b%s%d' % (p[0], k) for k in range(n[p])))
        c.ensure('ready ' + p, [r[0] for r in ready if r[1] == p] == ['setup', 'evaluated'] and coll.weight_dict[p] is w)
    c.ensure('pairs', sorted(coll.cl_dict) == sorted(f'{p}_{q}' for p, q in itertools.combinations_with_replacement(probes, 2)))
    coll.evaluateAngularCoefficients()
    for p, q in itertools.combinations_with_replacement(probes, 2):
        cl = coll[f'{p}_{q}']
        l, dl = own[p]
        c.ensure(f'multipoles {p} {q}', cl.l_bin_centers is l and cl.l_bin_widths is dl)
        c.ensure(f'shape {p} {q}', c.shape_eq(cl.c_lij, (c.len(l), n[p], n[q])))
        for i in range(n[p]):
            for j in range(n[q]):
                c.forall(f'spectrum {p} {q} bins {i} {j}', [c.len(l)], lambda a: c.eq(c.get(cl.c_lij, a, i, j), c.simps(c.vector(m, lambda k: c.get(
                    cl.limber_power_spectrum_l_z, a, k) * c.div(c.get(tabs[p], i, k) * c.get(tabs[q], j, k) * cos.c_km_s, c.get(cos.H_z, k) * c.get(
                        cos.r_z, k) ** 2)), z)))


@contract('P14', [WF + '.weight_function_for_probe', WF + '.WeightFunction.setUp', WF + '.WeightFunction.__init__', WF + '.LensingWeightFunction.__init__', WF + '.WeightFunctionWithBias.setUp',
                  WF + '.WeightFunctionWithBias.setupBias', WF + '.weight_cls_name_from_obs', WF + '.probe_from_weight_function_cls_name'], weight=1)
def weight_of_a_probe(c):
    """the weight of a probe is built from the settings, parameters and cosmologies given for it; unless a density is given it reads
    the one named for its probe; the method of the lensing efficiency is the configured one"""
    ns = SimpleNamespace
    p = c.choice('probe', [PH, SP, WL, VD])
    cos, fid = ns(name='displaced'), ns(name='fiducial')
    conf = ns(density_init_file='density of ' + p, bias_init_file='bias of ' + p, specific_settings={})
    ac = c.choice('angular', [None, 'quad', 'simpson'])
    ac = ac and ns(lensing_efficiency_integration_method=ac)
    ready, read = [], []

    class Density:
        n_bins, z_bin_edges, norm_density_iz = 1, None, None

        def setUp(self):
            ready.append(self)

    def from_file(file, *a, **k):
        read.append((str(file), Density()))
        return read[-1][1]
    c.stub(WF + ':RedshiftDensity', ns(fromHDF5=from_file))
    files = []

    def load(self, file, root='/'):
        files.append(str(file))
        self.model_name = 'fiducial_growth_void' if p == VD else 'constant'
        self.nuisance_parameters, self.additional_parameters = {'b0': 5.0}, {}
    c.stub('seyfert.cosmology.bias:Bias.loadFromHDF5', load)
    c.stub('seyfert.cosmology.bias:Bias.initBiasModel', lambda self, *a, **k: None)
    v = c.real('b0')
    P1 = c.target('seyfert.cosmology.parameter:PhysicalParameter')
    pars = c.choice('parameters', [None, {'b0': P1(name='b0', kind=P1.NUISANCE_PAR_STRING, probe=p, fiducial=1.0, current_value=v, is_free_parameter=True)}])
    w = c.target(WF + ':weight_function_for_probe')(p, probe_config=conf, nuisance_params=pars, cosmology=cos, fiducial_cosmology=fid, angular_config=ac)
    c.ensure('probe', w.probe == p)
    c.ensure('inputs', w.cosmology is cos and w.fiducial_cosmology is fid and w.probe_config is conf and w.nuisance_params is pars and w.angular_config is ac)
    if p == WL:
        c.ensure('method', w.lensing_efficiency_integration_method == (ac.lensing_efficiency_integration_method if ac else 'simpson'))
        c.ensure('shape noise', c.eq(w.shot_noise_factor * 100, 9) if c.sym else abs(w.shot_noise_factor - 0.09) < 1e-12)
    c.ensure('not yet evaluated', not w.is_evaluated)
    own = Density() if c.choice('density', ['given', 'to be read']) == 'given' else None
    w.density = own
    w.setUp()
    if own is not None:
        c.ensure('given one', w.density is own and not read)
    else:
        c.ensure('read', [f for f, d in read] == ['density of ' + p] and w.density is read[0][1] and ready == [w.density])
    if p == WL or pars is None:
        c.ensure('no bias', w.bias is None and not files)
    else:
        c.ensure('bias', files == ['bias of ' + p] and c.eq(w.bias.nuisance_parameters['b0'], v))
