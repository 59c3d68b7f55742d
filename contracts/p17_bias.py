"""Bias models: which value every redshift bin gets, for every parameter storage order, and where the values come from."""
from types import SimpleNamespace
from pyver.api import contract
from contracts.p14_limber import nuisance
from contracts.p15_density import edges

B = 'seyfert.cosmology.bias'
WF = 'seyfert.cosmology.weight_functions'
PH, SP, VD = 'PhotometricGalaxy', 'SpectroscopicGalaxy', 'Void'
NS = [1, 2, 5, 11, 12]


def values(c, prefix, n, order):
    """bias parameters prefix0 .. prefix<n-1> stored in some order"""
    names = [f'{prefix}{i}' for i in range(n)]
    v = {s: c.real(s, positive=True, conc=(0.8, 3)) for s in names}
    keys = {'natural': names, 'reversed': names[::-1], 'alphabetical': sorted(names)}[order]
    return [v[s] for s in names], {k: v[k] for k in keys}


def orders(c):
    return c.choice('storage order', ['natural', 'reversed', 'alphabetical'])


@contract('P17', [B + '.BiasModel.getSortedBiasValues', B + '.ConstantBias.computeBias', B + '.BiasModel.n_bins', B + '.Bias.initBiasModel', B + '.Bias.evaluateBias'],
          weight=2, bound='1, 2, 5, 11 or 12 redshift bins; every value, edge and grid')
def constant_bias(c):
    """constant model: bin i has the value of parameter i at every redshift, whatever the storage order"""
    n = c.choice('bins', NS)
    b, pars = values(c, c.choice('name', ['bgph', 'bgsp']), n, orders(c))
    bias = c.target(B + ':Bias')(probe=PH, z_bin_edges=edges(c, 'edges', n))
    bias.model_name, bias.nuisance_parameters = 'constant', pars
    bias.initBiasModel()
    m = c.int('grid', 1, conc=(1, 6))
    z = c.array('z', (m,), positive=True, conc=(0.01, 3))
    bias.evaluateBias(z)
    c.ensure('shape', c.shape_eq(bias.b_i_z, (n, m)))
    for i in range(n):
        c.forall(f'bin {i}', [m], lambda k: c.eq(c.get(bias.b_i_z, i, k), b[i]))
    c.forall('grid kept', [m], lambda k: c.eq(c.get(bias.z_grid, k), c.get(z, k)))


@contract('P17', [B + '.PiecewiseBias.computeBias', B + '.PiecewiseBias.getConditionAndValuesLists', B + '.BiasModel.getSortedBiasValues', B + '.Bias.initBiasModel',
                  B + '.Bias.evaluateBias'], weight=3, bound='1, 2, 5, 11 or 12 redshift bins; every value, edge and grid')
def piecewise_bias(c):
    """piecewise model: at any redshift the value of the bin containing it, constant beyond the first and last edges, the same in every row"""
    n = c.choice('bins', NS)
    b, pars = values(c, c.choice('name', ['bgph', 'bgsp']), n, orders(c))
    E = edges(c, 'edges', n)
    bias = c.target(B + ':Bias')(probe=PH, z_bin_edges=E)
    bias.model_name, bias.nuisance_parameters = 'piecewise', pars
    bias.initBiasModel()
    m = c.int('grid', 1, conc=(4, 30))

    def grid(r, s):
        import numpy as np
        z = np.concatenate([np.asarray(E, dtype=float), np.linspace(0.01, 3, s[0])])[-s[0]:] if r.random() < 0.5 else 3 * r.random(s[0])
        z[r.randint(len(z))] = float(E[r.randint(n + 1)])
        return z
    z = c.array('z', (m,), positive=True, gen=grid)
    bias.evaluateBias(z)
    c.ensure('shape', c.shape_eq(bias.b_i_z, (n, m)))
    row = c.int('row', 0, conc=(0, n - 1))
    c.require(row < n)
    got = lambda k: c.get(bias.b_i_z, row, k)
    for i in range(n):
        hi = (lambda k: c.get(z, k) < c.get(E, i + 1)) if i < n - 1 else (lambda k: c.get(z, k) <= c.get(E, n))
        c.forall(f'inside bin {i}', [m], lambda k: c.implies(c.and_(c.get(E, i) <= c.get(z, k), hi(k)), c.eq(got(k), b[i])))
    c.forall('below the first edge', [m], lambda k: c.implies(c.get(z, k) < c.get(E, 0), c.eq(got(k), b[0])))
    c.forall('above the last edge', [m], lambda k: c.implies(c.get(z, k) > c.get(E, n), c.eq(got(k), b[n - 1])))


@contract('P17', [B + '.ConstantBias.computeBias', B + '.PiecewiseBias.computeBias', B + '.Bias.initBiasModel'], weight=1, trials=20)
def malformed_bias(c):
    """a wrong number of values, an unknown model, or a void model without its cosmology is refused"""
    err = c.target(B + ':BiasError')
    bias = c.target(B + ':Bias')(probe=PH, z_bin_edges=edges(c, 'edges', 3))
    kind = c.choice('kind', ['constant', 'piecewise', 'vdn_void', 'fiducial_growth_void', 'other'])
    bias.model_name = kind
    bias.nuisance_parameters = values(c, 'b', c.choice('values', [2, 4]), 'natural')[1]
    if kind in ('constant', 'piecewise'):
        bias.initBiasModel()
        c.raises('wrong number of values', err, lambda: bias.evaluateBias(c.array('z', (4,))))
    else:
        c.raises('refused', KeyError if kind == 'other' else err, lambda: bias.initBiasModel())


@contract('P17', [B + '.EuclidFlagshipGCphBias.computeBias', B + '.Bias.initBiasModel', B + '.Bias.evaluateBias'], weight=1)
def flagship_bias(c):
    """flagship model: A + B/(1+exp(-(z-D)C)) in every bin"""
    n, m = c.int('bins', 1, conc=(1, 5)), c.int('grid', 1, conc=(1, 6))
    bias = c.target(B + ':Bias')(probe=PH, z_bin_edges=edges(c, 'edges', n))
    p = {k: c.real(k, conc=(0.5, 2)) for k in ('Aph', 'Bph', 'Cph', 'Dph')}
    bias.model_name, bias.nuisance_parameters = 'euclid_flagship_photo', p
    bias.initBiasModel()
    z = c.array('z', (m,), positive=True, conc=(0.01, 3))
    bias.evaluateBias(z)
    c.ensure('shape', c.shape_eq(bias.b_i_z, (n, m)))
    c.forall('value', [n, m], lambda i, k: c.eq(c.get(bias.b_i_z, i, k), p['Aph'] + c.div(
        p['Bph'], 1 + c.exp(-p['Cph'] * (c.get(z, k) - p['Dph'])))))


def cosmology(c, m):
    import numpy as np
    return SimpleNamespace(
        z_grid=c.array('zc', (m,), increasing=True, positive=True, gen=lambda r, s: np.linspace(0.01, 2.5, s[0]) + 0.001 * r.random()),
        growth_factor_z=c.array('growth', (m,), positive=True, gen=lambda r, s: np.linspace(1, 0.4, s[0]) + 0.01 * r.random(s[0])))


@contract('P17', [B + '.FiducialGrowthVoidBias.computeBias', B + '.BiasModel.z_bin_centers', B + '.Bias.initBiasModel', B + '.Bias.evaluateBias'], weight=2)
def growth_void_bias(c):
    """void bias of a bin: the present value over the fiducial growth, read at the bin centre; another redshift grid is refused"""
    n, m = c.int('bins', 1, conc=(1, 5)), c.int('grid', 4, conc=(5, 9))
    cos = cosmology(c, m)
    E = edges(c, 'edges', n)
    bias = c.target(B + ':Bias')(probe=VD, z_bin_edges=E)
    v = c.real('voidbias0', conc=(-4, -1))
    bias.model_name, bias.nuisance_parameters = 'fiducial_growth_void', {'voidbias0': v}
    bias.initBiasModel(fiducial_cosmology=cos)
    if c.choice('grid', ['same', 'other']) == 'other':
        z = c.array('z', (m,), positive=True, conc=(0.01, 3))
        k = c.int('differs', 0, conc=(0, 4))
        c.require(k < m)
        c.require(c.not_(c.eq(c.get(z, k), c.get(cos.z_grid, k))))
        c.raises('other grid', c.target(B + ':BiasError'), lambda: bias.evaluateBias(z))
        return
    bias.evaluateBias(cos.z_grid)
    s = c.spline(cos.z_grid, v / cos.growth_factor_z, k=3)
    c.ensure('shape', c.shape_eq(bias.b_i_z, (n, m)))
    c.forall('value', [n, m], lambda i, k: c.eq(c.get(bias.b_i_z, i, k), s(c.div(c.get(E, i) + c.get(E, i + 1), 2))))


@contract('P17', [WF + '.WeightFunctionWithBias.setupBias', WF + '.VoidWeightFunction.setupBias', WF + '.PhotometricGalaxyWeightFunction.setupBias',
                  WF + '.SpectroscopicGalaxyWeightFunction.setupBias', WF + '.WeightFunctionWithBias.evaluateOverRedshiftGrid', WF + '.WeightFunction.setUp',
                  WF + '.WeightFunctionWithBias.setUp', B + '.Bias.initBiasModel'], weight=2, trials=40)
def values_in_use(c):
    """the bias a probe uses follows the current parameter values, not those of the file it starts from, at every evaluation"""
    probe, model = c.choice('case', [(PH, 'constant'), (PH, 'piecewise'), (PH, 'euclid_flagship_photo'), (SP, 'constant'), (SP, 'piecewise'),
                                     (VD, 'fiducial_growth_void'), (VD, 'vdn_void'), (VD, 'piecewise')])
    names = {'euclid_flagship_photo': ['Aph', 'Bph', 'Cph', 'Dph'], 'fiducial_growth_void': ['voidbias0'], 'vdn_void': []}.get(model, ['b0', 'b1'])
    n, m = 2, c.int('grid', 4, conc=(4, 7))
    given, fid = cosmology(c, m), SimpleNamespace(z_grid=None, growth_factor_z=None)
    given.H_z, given.c_km_s = c.array('H', (m,), positive=True), c.real('c', positive=True, conc=(1, 3))
    fid.z_grid, fid.growth_factor_z = given.z_grid, c.array('fid_growth', (m,), positive=True, conc=(0.4, 1))
    stored = {s: c.real('file_' + s, conc=(0.5, 2)) for s in names}
    asked = []

    def read(self, file, root='/'):
        asked.append(file)
        self.model_name, self.nuisance_parameters, self.additional_parameters = model, dict(stored), {'R_min_Mpc': 1}
    c.stub(B + ':Bias.loadFromHDF5', read)
    now = nuisance(c, {s: c.real('now_' + s, conc=(0.5, 2)) for s in names + ['other']}, fixed=['b1', 'Bph'])
    w = c.target(WF + ':weight_function_for_probe')(
        probe, probe_config=SimpleNamespace(bias_init_file='bias.h5', density_init_file='d.h5'), nuisance_params=dict(now),
        cosmology=given, fiducial_cosmology=fid)
    c.ensure('kind', w.probe == probe)
    nz = c.array('n_iz', (n, m), positive=True)
    w.density = SimpleNamespace(z_bin_edges=edges(c, 'edges', n), norm_density_iz=nz, n_bins=n)
    if (probe, model) == (VD, 'piecewise'):
        c.raises('not a void model', NotImplementedError, lambda: w.setUp())
        return
    w.setUp()

    def current(label):
        c.ensure(label + ' model', type(w.bias.model).__name__ == {
            'constant': 'ConstantBias', 'piecewise': 'PiecewiseBias', 'euclid_flagship_photo': 'EuclidFlagshipGCphBias',
            'fiducial_growth_void': 'FiducialGrowthVoidBias', 'vdn_void': 'VdnVoidBias'}[model])
        c.ensure(label + ' names', sorted(w.bias.model.nuisance_parameters) == sorted(names))
        for s in names:
            c.ensure(f'{label} {s}', c.eq(w.bias.model.nuisance_parameters[s], now[s].current_value))
        if probe == VD:
            c.ensure(label + ' cosmology', w.bias.model.cosmology is (fid if model == 'fiducial_growth_void' else given))
    current('at first')
    c.ensure('file of the probe', asked == ['bias.h5'])
    zero = c.choice('later', ['any', 'zero']) == 'zero'
    for k, s in enumerate(names):
        now[s].current_value = 0.0 if zero and k == 0 else c.real('later_' + s, conc=(0.5, 2))
    if model == 'vdn_void':
        return
    w.evaluateOverRedshiftGrid(given.z_grid)
    current('later')
    c.ensure('shape', c.shape_eq(w.w_bin_z, (n, m)))
    c.forall('weight', [n, m], lambda i, k: c.eq(c.get(w.w_bin_z, i, k), c.div(c.get(given.H_z, k), given.c_km_s) * c.get(nz, i, k) * c.get(w.bias.b_i_z, i, k)))


V = B + '.VdnVoidBias.'


@contract('P17', [V + 'voidMultiplicity'], weight=1)
def void_multiplicity(c):
    """void multiplicity: the Gaussian limit for x <= 0.276, the four-term series above it"""
    f = c.target(B + ':VdnVoidBias.voidMultiplicity')
    dv, D, s, x = (c.real(n, positive=n != 'dv', conc=v) for n, v in (('dv', (-3, -1)), ('D', (0.3, 0.8)), ('s', (0.3, 2)), ('x', (0.1, 0.6))))
    pi, sin = c.np().pi, c.np().sin
    r = f(dv, D, s, x)
    low = c.sqrt(2 / pi) * c.div(c.abs(dv), s) * c.exp(-c.div(dv ** 2, 2 * s ** 2))
    high = 2 * sum(j * pi * x ** 2 * sin(j * pi * D) * c.exp(-c.div((j * pi * x) ** 2, 2)) for j in range(1, 5))
    c.ensure('multiplicity', c.eq(r, c.ite(x <= c.frac(276, 1000), low, high)))


def vdn(c, n, m, R):
    cos = cosmology(c, m)
    mod = c.target(B + ':VdnVoidBias')(name='vdn_void', cosmology=cos, z_bin_edges=edges(c, 'edges', n), additional_parameters={
        'R_min_Mpc': c.real('R_min', positive=True, conc=(5, 10)), 'R_max_Mpc': c.real('R_max', positive=True, conc=(20, 40)), 'R_grid_size': R,
        'delta_c0': c.real('delta_c', positive=True, conc=(1.5, 1.8)), 'delta_v0': c.real('delta_v', conc=(-3, -2))})
    c.require(mod.additional_parameters['R_min_Mpc'] < mod.additional_parameters['R_max_Mpc'])
    c.require(mod.additional_parameters['delta_v0'] < 0)
    return mod, cos


@contract('P17', [V + 'computeVoidMultiplicity'], weight=1)
def multiplicity_table(c):
    """the multiplicity of every radius and redshift is computed from that radius and that redshift"""
    m, R = c.int('grid', 1, conc=(2, 5)), c.int('radii', 2, conc=(2, 5))
    mod, cos = vdn(c, 2, m, R)
    D, dv = c.array('D', (m,), positive=True, conc=(0.3, 0.8)), c.array('dv', (m,), conc=(-3, -1))
    x, s = c.array('x', (R, m), positive=True, conc=(0.1, 0.6)), c.array('s', (R,), positive=True, conc=(0.3, 2))
    if c.sym:
        g = c.fn('multiplicity', 4)
        c.patch(B + ':VdnVoidBias.voidMultiplicity', staticmethod(lambda delta_v, D, sigma, x: g(delta_v, D, sigma, x)))
    f = mod.voidMultiplicity
    r = mod.computeVoidMultiplicity(D, x, dv, s)
    c.ensure('shape', c.shape_eq(r, (R, m)))
    c.forall('entry', [R, m], lambda i, k: c.eq(c.get(r, i, k), f(c.get(dv, k), c.get(D, k), c.get(s, i), c.get(x, i, k))))


@contract('P17', [V + 'computeVdnSizeFunction', 'seyfert.numeric.general.callable_stencil_derivative'], weight=2, trials=20)
def size_function(c):
    """void size function: multiplicity x dln(1/sigma)/dlnR at the linear radius R/1.7, over R times the volume of the void"""
    m, R = c.int('grid', 1, conc=(2, 4)), c.int('radii', 2, conc=(2, 5))
    mod, cos = vdn(c, 2, m, R)
    K = c.int('k_size', 3, conc=(4, 8))
    P = c.array('P', (m, K), positive=True, conc=(1, 3))
    kg = c.array('k', (K,), positive=True, increasing=True)
    cos.power_spectrum = SimpleNamespace(lin_p_mm_z_k=P, k_grid=kg)
    if c.sym:
        sig, mult = c.fn('sigma', 1), c.fn('mult', 2)
    else:
        sig, mult = (lambda x: 3 / (1 + x)), (lambda i, k: 1 + 0.1 * i + 0.2 * k)
    used = []

    def sigma(r, P_lin, k):
        used.append((P_lin, k))
        return sig(r)
    cos.computeSigmaR, cos.sigmaR = sig, sigma
    table = c.array('mult_table', (R, m), positive=True)
    asked = {}

    def multiplicities(D, x, delta_v_z, sigmaR):
        asked.update(D=D, x=x, dv=delta_v_z, s=sigmaR)
        return table
    mod.computeVoidMultiplicity = multiplicities
    RR = c.array('R', (R,), increasing=True, positive=True, gen=lambda r, s: 5. + 3 * r.random() + 2. * __import__('numpy').arange(s[0]))
    DD, dv, xx, sR = c.array('DD', (m,)), c.array('dv', (m,)), c.array('xx', (R, m)), c.array('sR', (R,))
    r = mod.computeVdnSizeFunction(RR, DD, xx, dv, sR)
    c.fresh_array_equal('barrier ratio of the multiplicity', asked['D'], DD)
    c.fresh_array_equal('argument of the multiplicity', asked['x'], xx)
    c.fresh_array_equal('threshold of the multiplicity', asked['dv'], dv)
    c.fresh_array_equal('amplitude of the multiplicity', asked['s'], sR)
    pi = c.np().pi
    L = lambda i: c.get(RR, i) / c.frac(17, 10)
    h = (L(1) - L(0)) / 2
    d = lambda x: c.div(-sig(x + 2 * h) + 8 * sig(x + h) - 8 * sig(x - h) + sig(x - 2 * h), 12 * h)
    c.ensure('shape', c.shape_eq(r, (R, m)))
    c.forall('value', [R, m], lambda i, k: c.eq(c.get(r, i, k), c.get(table, i, k) * -c.div(L(i), sig(L(i))) * d(L(i)) * c.div(
        1, c.get(RR, i) * (4 * pi * c.get(RR, i) ** 3 / 3))))
    c.ensure('power spectrum of today', bool(used))
    for p, q in used[:1]:
        c.forall('power spectrum of today', [K], lambda j: c.and_(c.eq(c.get(p, j), c.get(P, 0, j)), c.eq(c.get(q, j), c.get(kg, j))))


@contract('P17', [V + 'computeBias', V + 'z_grid', B + '.BiasModel.z_bin_centers'], weight=3, trials=20)
def vdn_void_bias(c):
    """void bias: the size-function-weighted mean over radii of the void bias at each redshift, read at the bin centres"""
    c.numpy_division()
    n, m, R = c.int('bins', 1, conc=(1, 3)), c.int('grid', 4, conc=(5, 8)), c.int('radii', 2, conc=(3, 6))
    mod, cos = vdn(c, n, m, R)
    if c.choice('grid', ['same', 'other']) == 'other':
        z = c.array('z', (m,), positive=True, conc=(0.01, 3))
        k = c.int('differs', 0, conc=(0, 4))
        c.require(k < m)
        c.require(c.not_(c.eq(c.get(z, k), c.get(cos.z_grid, k))))
        c.raises('other grid', c.target(B + ':BiasError'), lambda: mod.computeBias(z))
        return
    sig = c.array('sigma', (R,), positive=True, conc=(0.3, 2))
    size = c.array('size', (R, m), positive=True, conc=(0.5, 2))
    seen = []
    cos.computeSigmaR = lambda r: (seen.append(r), sig)[1]
    asked = {}

    def sizes(R, D, x, delta_v_z, sigmaR):
        asked.update(R=R, D=D, x=x, dv=delta_v_z, s=sigmaR)
        return size
    mod.computeVdnSizeFunction = sizes
    b = mod.computeBias(cos.z_grid)
    rr = seen[0]
    c0, v0 = mod.additional_parameters['delta_c0'], mod.additional_parameters['delta_v0']

    def bias(i, k):
        g = c.get(cos.growth_factor_z, k)
        dc, dv = c.div(c0, g), c.div(v0, g)
        D = c.div(c.abs(dv), c.abs(dv) + dc)
        nu2 = c.div(c.abs(dv), c.get(sig, i)) ** 2
        return 1 + c.div(nu2 - 1, dv) + c.div(dv * D, 4 * dc ** 2 * nu2)
    c.ensure('radii', c.shape_eq(rr, (R,)))
    c.forall('radii', [R], lambda i: c.eq(c.get(rr, i), mod.additional_parameters['R_min_Mpc'] + c.div(
        i * (mod.additional_parameters['R_max_Mpc'] - mod.additional_parameters['R_min_Mpc']), R - 1)))
    c.fresh_array_equal('radii of the size function', asked['R'], rr)
    c.fresh_array_equal('amplitudes of the size function', asked['s'], sig)
    g = lambda k: c.get(cos.growth_factor_z, k)
    D = c.div(c.abs(v0), c.abs(v0) + c0)
    c.ensure('arguments of the size function', c.and_(c.shape_eq(asked['D'], (m,)), c.shape_eq(asked['dv'], (m,)), c.shape_eq(asked['x'], (R, m))))
    c.forall('barrier of the size function', [m], lambda k: c.and_(c.eq(c.get(asked['D'], k), D), c.eq(c.get(asked['dv'], k), c.div(v0, g(k)))))
    c.forall('argument of the size function', [R, m], lambda i, k: c.eq(
        c.get(asked['x'], i, k), c.div(D * g(k), c.abs(v0)) * c.get(sig, i)))
    mean = c.vector(m, lambda k: c.div(c.simps(c.vector(R, lambda i: bias(i, k) * c.get(size, i, k)), rr), c.simps(c.vector(R, lambda i: c.get(size, i, k)), rr)))
    s = c.spline(cos.z_grid, mean, k=3)
    E = mod.z_bin_edges
    c.ensure('shape', c.shape_eq(b, (n, m)))
    c.forall('value', [n, m], lambda i, k: c.eq(c.get(b, i, k), s(c.div(c.get(E, i) + c.get(E, i + 1), 2))))
