"""What one stage of a run stores is what the next one reads back."""
import contextlib
import itertools
import tempfile
from pathlib import Path
from types import SimpleNamespace
from pyver.api import contract
from contracts.p09_parameters import par, COSMO, NUIS

ns = SimpleNamespace
IO = 'seyfert.file_io.hdf5_io'
CM, PS, PM = 'seyfert.cosmology.cosmology', 'seyfert.cosmology.power_spectrum', 'seyfert.cosmology.parameter'
RD, BI, WF = 'seyfert.cosmology.redshift_density', 'seyfert.cosmology.bias', 'seyfert.cosmology.weight_functions'
KF, CE, DC, CD = 'seyfert.cosmology.kernel_functions', 'seyfert.cosmology.c_ells', 'seyfert.fisher.delta_cl', 'seyfert.derivatives.cl_derivative'
PH, SP, WL, VD = 'PhotometricGalaxy', 'SpectroscopicGalaxy', 'Lensing', 'Void'
F = IO + '.AbstractH5FileIO.'


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory(prefix='pyver') as d:
        yield Path(d)


def opened(c, path, mode='r'):
    """the file as HDF5 (the stand-in in symbolic runs)"""
    if c.sym:
        from pyver import h5shim
        return h5shim.File(path, mode)
    import h5py
    return h5py.File(path, mode)


def same(c, name, got, want):
    """the same value: arrays entry by entry, numbers, text, absent"""
    if want is None or got is None:
        c.ensure(name, want is None and got is None)
    elif isinstance(want, (str, bool)):
        c.ensure(name, not isinstance(got, bytes) and bool(got == want))
    elif isinstance(want, dict):
        c.ensure(name + ' names', sorted(got) == sorted(want))
        for k in want:
            same(c, f'{name} {k}', got[k], want[k])
    elif hasattr(want, 'shape') and want.shape != ():
        c.fresh_array_equal(name, got, want)
    else:
        c.ensure(name, c.eq(got, want))


def axis(c, name, n):
    return c.array(name, (n,), conc=(0.1, 2), gen=lambda r, s: sorted(r.random(s[0])))


class Sizes:
    def __init__(self, c, tag=''):
        self.nz, self.nk, self.nb, self.nl = (c.int(tag + x, 1, conc=(1, 4)) for x in ('nz', 'nk', 'nb', 'nl'))


ROOTS = ['/', 'fid', '/a/b', 'a/b']
TEXT = ['boltzmann_code', 'z_grid', 'k_grid', 'lin_p_mm_z_k', 'nonlin_p_mm_z_k', 'transfer_function']


def power(c, s, tag='', code='CAMB', transfer=True):
    p = c.target(PS + ':PowerSpectrum')()
    p.boltzmann_code = code
    p.z_grid, p.k_grid = c.array(tag + 'pz', (s.nz,)), c.array(tag + 'pk', (s.nk,))
    p.lin_p_mm_z_k, p.nonlin_p_mm_z_k = c.array(tag + 'plin', (s.nz, s.nk)), c.array(tag + 'pnl', (s.nz, s.nk))
    p.transfer_function = c.array(tag + 'tf', (s.nk,)) if transfer else None
    return p


def power_same(c, name, got, want):
    for k in TEXT:
        same(c, f'{name} {k}', getattr(got, k), getattr(want, k))


def density(c, s, tag='', probe=PH, own=False, evaluated=True, counts=True):
    d = c.target(RD + ':RedshiftDensity')(probe=probe)
    d.has_niz_from_input = own
    n = c.int(tag + 'samples', 1, conc=(1, 5))
    d.input_z_domain, d.z_bin_edges = c.array(tag + 'dom', (n,)), c.array(tag + 'edges', (s.nb + 1,))
    d.catalog_f_sky = c.real(tag + 'fsky', conc=(0.1, 1))
    if own:
        d.input_n_iz = c.array(tag + 'niz', (s.nb, n))
    else:
        d.input_dN_dz_dOmega = c.array(tag + 'dn', (n,))
        d.instrument_response = {k: c.real(f'{tag}{k}', conc=(0.1, 1)) for k in ('f_out', 'z_b', 'z_o', 'sigma_b', 'sigma_o', 'c_b', 'c_o')}
    d.dN_dOmega_bins = c.array(tag + 'N', (s.nb,)) if counts else None
    d.z_grid = c.array(tag + 'dz', (s.nz,)) if evaluated else None
    d.norm_density_iz = c.array(tag + 'nd', (s.nb, s.nz)) if evaluated is True else None
    return d


DENS = ['probe', 'has_niz_from_input', 'input_z_domain', 'z_bin_edges', 'catalog_f_sky', 'dN_dOmega_bins', 'z_grid', 'norm_density_iz',
        'input_n_iz', 'input_dN_dz_dOmega', 'instrument_response']


def density_same(c, name, got, want):
    for k in DENS:
        same(c, f'{name} {k}', getattr(got, k), getattr(want, k))


def bias(c, s, tag='', probe=PH, model='piecewise', evaluated=True, edges=True):
    b = c.target(BI + ':Bias')(probe=probe)
    b.model_name = model
    b.nuisance_parameters = {f'bg{k}': c.real(f'{tag}bg{k}', conc=(1, 2)) for k in (0, 1, 10)}
    b.additional_parameters = {'Rv': c.real(tag + 'Rv', conc=(1, 2))} if model == 'vdn_void' else {}
    b.z_bin_edges = c.array(tag + 'bedges', (s.nb + 1,)) if edges else None
    b.z_grid = c.array(tag + 'bz', (s.nz,)) if evaluated else None
    b.b_i_z = c.array(tag + 'biz', (s.nb, s.nz)) if evaluated else None
    return b


def bias_same(c, name, got, want):
    for k in ('probe', 'model_name', 'nuisance_parameters', 'additional_parameters', 'z_bin_edges', 'z_grid', 'b_i_z'):
        same(c, f'{name} {k}', getattr(got, k), getattr(want, k))


def weight(c, s, tag='', probe=PH, evaluated=True, dens=True, own=True):
    w = c.target(WF + ':weight_function_for_probe')(probe)
    w.z_grid = c.array(tag + 'wz', (s.nz,)) if evaluated else None
    w.w_bin_z = c.array(tag + 'w', (s.nb, s.nz)) if evaluated else None
    w.density = density(c, s, tag + 'd', probe, own) if dens else None
    if probe != WL:
        w.bias = bias(c, s, tag + 'b', probe) if dens else None
    return w


def weight_same(c, name, got, want):
    c.ensure(name + ' kind', type(got) is type(want) and got.probe == want.probe)
    same(c, name + ' z', got.z_grid, want.z_grid)
    same(c, name + ' w', got.w_bin_z, want.w_bin_z)
    for k, f in (('density', density_same), ('bias', bias_same)):
        x, y = getattr(got, k), getattr(want, k)
        if y is None or x is None:
            c.ensure(f'{name} {k}', x is None and y is None)
        else:
            f(c, f'{name} {k}', x, y)


def again(c, load, save, file, check):
    """read twice: the same; the object saved is refused a second time under the same name and the content stays"""
    check('read', load())
    check('read again', load())
    if save is not None:
        c.raises('not stored twice', Exception, save)
    check('kept', load())


@contract('P22', [PS + '.PowerSpectrum.' + f for f in ('saveToHDF5', 'fromHDF5', 'loadFromHDF5')]
          + [PS + '.H5PowerSpectrum.' + f for f in ('__init__', 'writeToObject', 'writeObjectToFile')]
          + [F + f for f in ('openFile', 'closeFile', 'load', 'save', 'populateObject', 'createGroup', 'createDataset', '_create_group', '_create_dataset',
                             'createDatasets', 'root', 'root_path', 'attrs', 'writeToObject')], weight=2, trials=12)
def power_spectrum(c):
    """a stored power spectrum reads back with its grids, values, transfer function and code, under any root"""
    s = Sizes(c)
    p = power(c, s, code=c.choice('code', ['CAMB', 'CLASS']), transfer=c.choice('transfer', [True, False]))
    root = c.choice('root', ROOTS)
    with scratch() as d:
        f = d / 'p_mm.h5'
        p.saveToHDF5(f, root=root) if root != '/' else p.saveToHDF5(str(f))
        K = c.target(PS + ':PowerSpectrum')
        again(c, lambda: K.fromHDF5(f, root=root), lambda: p.saveToHDF5(f, root=root), f, lambda n, x: power_same(c, n, x, p))
        q = power(c, Sizes(c, 'o'), 'o', 'other')
        q.transfer_function = None
        q.loadFromHDF5(f, root)
        power_same(c, 'into an existing one', q, p)
        c.raises('absent root', Exception, lambda: K.fromHDF5(f, root='nowhere'))
        c.raises('absent file', Exception, lambda: K.fromHDF5(d / 'none.h5'))


def cosmology(c, s, tag='', evaluated=True, flat=True, with_power=True):
    names = c.choice('parameters', [['h'], ['Omm', 'wa', 'h']])
    pp = {}
    for x in names:
        pp[x] = par(c, tag + x, free=(x != 'wa'))[0]
        pp[x].name = x
    if not c.sym:
        pp['h'].current_value = 0.7
    m = c.target(CM + ':Cosmology')(z_grid=c.array(tag + 'cz', (s.nz,)), model_name=c.choice('model', ['CPL', 'LambdaCDM']))
    m.params, m.is_flat = pp, flat
    for k in ('dimensionless_hubble_array', 'dimensionless_comoving_distance_array', 'growth_factor_z'):
        setattr(m, k, c.array(tag + k, (s.nz,)) if evaluated else None)
    m.power_spectrum = power(c, s, tag) if with_power else None
    return m


def parameter_same(c, name, got, want):
    for k in ('name', 'fiducial', 'current_value', 'kind', 'stem_factor', 'derivative_method', 'units', 'probe'):
        same(c, f'{name} {k}', getattr(got, k), getattr(want, k))
    c.ensure(f'{name} free', bool(got.is_free_parameter) == bool(want.is_free_parameter))


def cosmology_same(c, name, got, want):
    c.ensure(name + ' parameters', sorted(got.params) == sorted(want.params))
    for x in want.params:
        parameter_same(c, f'{name} {x}', got.params[x], want.params[x])
    for k in ('model_name', 'z_grid', 'dimensionless_hubble_array', 'dimensionless_comoving_distance_array', 'growth_factor_z'):
        same(c, f'{name} {k}', getattr(got, k), getattr(want, k))
    c.ensure(name + ' flat', bool(got.is_flat) == want.is_flat)


H5C = CM + '.H5Cosmology.'
CO = CM + '.Cosmology.'


@contract('P22', [CO + 'fromHDF5', CO + 'saveToHDF5', CO + 'loadFromHDF5', CM + '.fromHDF5', PM + '.PhysicalParameter.to_dict', PM + '.PhysicalParameter.from_dict']
          + [H5C + f for f in ('__init__', 'readBuildingData', 'writeToObject', 'writeObjectToFile')], weight=4, trials=12)
def stored_cosmology(c):
    """a stored cosmology reads back with its parameters, background functions, growth factor and power spectrum"""
    s = Sizes(c)
    c.stub(CM + ':Cosmology.checkParameters', lambda self: None)
    with_power = c.choice('power', [True, False])
    m = cosmology(c, s, evaluated=c.choice('evaluated', [True, False]), flat=c.choice('flat', [True, False]), with_power=with_power)
    root = c.choice('root', ['/', 'fid'])
    with scratch() as d:
        f = d / 'p_mm.h5'
        m.saveToHDF5(f, root=root)
        K = c.target(CM + ':Cosmology')

        def check(n, x):
            cosmology_same(c, n, x, m)
            if with_power:
                power_same(c, n, x.power_spectrum, m.power_spectrum)
            else:
                c.ensure(n + ' no power', x.power_spectrum is None)
        again(c, lambda: K.fromHDF5(f, root, load_power_spectrum=with_power), lambda: m.saveToHDF5(f, root=root), f, check)
        if with_power:
            check('function', c.target(CM + ':fromHDF5')(f, root))
            c.ensure('not asked for', K.fromHDF5(f, root, load_power_spectrum=False).power_spectrum is None)
            k = K(model_name=None)
            k.loadFromHDF5(f, root)
            check('into an empty one', k)
        else:
            c.raises('no power spectrum there', Exception, lambda: K.fromHDF5(f, root))


RDD = RD + '.RedshiftDensity.'


@contract('P22', [RDD + 'fromHDF5', RDD + 'saveToHDF5', RDD + 'loadFromHDF5', RD + '.H5Density.writeToObject', RD + '.H5Density.writeObjectToFile', RD + '.H5Density.__init__'],
          weight=3, trials=12)
def stored_density(c):
    """a stored density reads back with its probe, edges, input distribution, instrument response, counts and evaluated bins"""
    s = Sizes(c)
    x = density(c, s, probe=c.choice('probe', [PH, SP, WL, VD]), own=c.choice('own', [True, False]), evaluated=c.choice('evaluated', [True, False, 'grid only']),
                counts=c.choice('counts', [True, False]))
    root = c.choice('root', ['/', 'x/y'])
    with scratch() as d:
        f = d / 'density.h5'
        x.saveToHDF5(f, root=root)
        K = c.target(RD + ':RedshiftDensity')
        again(c, lambda: K.fromHDF5(f, root), lambda: x.saveToHDF5(f, root=root), f, lambda n, y: density_same(c, n, y, x))
        k = K()
        k.loadFromHDF5(f, root)
        density_same(c, 'into an empty one', k, x)


@contract('P22', [RD + '.save_densities_to_file', RD + '.load_densities_from_file'], weight=2, trials=10)
def stored_densities(c):
    """the densities of several probes in one file come back each under its own probe"""
    probes = c.choice('probes', [[PH], [WL, PH], [SP, PH, WL, VD]])
    xs = {p: density(c, Sizes(c, p), p, p, own=(k % 2 == 0)) for k, p in enumerate(probes)}
    with scratch() as d:
        f = d / 'dens.h5'
        c.target(RD + ':save_densities_to_file')(xs, f)
        r = c.target(RD + ':load_densities_from_file')(f)
        c.ensure('probes', sorted(r) == sorted(probes))
        for p in probes:
            density_same(c, p, r[p], xs[p])


B = BI + '.Bias.'


@contract('P22', [B + 'fromHDF5', B + 'saveToHDF5', B + 'loadFromHDF5', BI + '.H5Bias.writeToObject', BI + '.H5Bias.writeObjectToFile', BI + '.H5Bias.__init__'], weight=2, trials=12)
def stored_bias(c):
    """a stored bias reads back with its model, nuisance and additional parameters and values"""
    s = Sizes(c)
    x = bias(c, s, probe=c.choice('probe', [PH, SP, VD]), model=c.choice('model', ['piecewise', 'vdn_void', 'fiducial_growth_void']),
             evaluated=c.choice('evaluated', [True, False]), edges=c.choice('edges', [True, False]))
    root = c.choice('root', ['/', 'x/y'])
    with scratch() as d:
        f = d / 'bias.h5'
        x.saveToHDF5(f, root=root)
        K = c.target(BI + ':Bias')
        again(c, lambda: K.fromHDF5(f, root), lambda: x.saveToHDF5(f, root=root), f, lambda n, y: bias_same(c, n, y, x))
        k = K()
        k.loadFromHDF5(f, root)
        bias_same(c, 'into an empty one', k, x)


W = WF + '.WeightFunction.'


@contract('P22', [W + 'fromHDF5', W + 'saveToHDF5', W + 'loadFromHDF5', W + 'probe', W + 'is_evaluated', WF + '.weight_function_for_probe', WF + '.weight_cls_name_from_obs',
                  WF + '.probe_from_weight_function_cls_name'] + [WF + '.H5WeightFunction.' + f for f in ('__init__', 'readBuildingData', 'writeToObject', 'writeObjectToFile')],
          weight=3, trials=12)
def stored_weight(c):
    """a stored weight function reads back as the one of its probe, with its values, density and bias"""
    s = Sizes(c)
    probe = c.choice('probe', [PH, SP, WL, VD])
    x = weight(c, s, probe=probe, evaluated=c.choice('evaluated', [True, False]), dens=c.choice('density', [True, False]), own=c.choice('own', [True, False]))
    root = c.choice('root', ['/', 'weight_functions/' + probe])
    with scratch() as d:
        f = d / 'w.h5'
        x.saveToHDF5(f, root=root)
        K = c.target(WF + ':WeightFunction')
        again(c, lambda: K.fromHDF5(f, root), (lambda: x.saveToHDF5(f, root=root)) if x.is_evaluated or x.density else None, f,
              lambda n, y: weight_same(c, n, y, x))
        k = c.target(WF + ':weight_function_for_probe')(probe)
        k.loadFromHDF5(f, root)
        weight_same(c, 'into an empty one', k, x)


def kernel(c, s, t, p, q, tag=''):
    k = c.target(KF + ':KernelFunction')(p, q)
    k.z_grid, k.k_ijz = c.array(tag + 'kz', (s.nz,)), c.array(tag + 'k', (s.nb, t.nb, s.nz))
    return k


def kernel_same(c, name, got, want):
    for k in ('probe1', 'probe2', 'z_grid', 'k_ijz'):
        same(c, f'{name} {k}', getattr(got, k), getattr(want, k))


K_ = KF + '.KernelFunction.'


@contract('P22', [K_ + 'fromHDF5', K_ + 'saveToHDF5', K_ + 'loadFromHDF5', KF + '.H5Kernel.writeToObject', KF + '.H5Kernel.writeObjectToFile', KF + '.H5Kernel.__init__'], weight=1)
def stored_kernel(c):
    """a stored kernel reads back with its pair of probes, grid and values"""
    s, t = Sizes(c), Sizes(c, 't')
    p, q = c.choice('pair', [(PH, PH), (WL, PH), (VD, SP)])
    x = kernel(c, s, t, p, q)
    root = c.choice('root', ROOTS)
    with scratch() as d:
        f = d / 'k.h5'
        x.saveToHDF5(f, root=root)
        K = c.target(KF + ':KernelFunction')
        again(c, lambda: K.fromHDF5(f, root), lambda: x.saveToHDF5(f, root=root), f, lambda n, y: kernel_same(c, n, y, x))
        k = K(q, p)
        k.loadFromHDF5(f, root)
        kernel_same(c, 'into an existing one', k, x)


def shared_weights(c, probes, tag=''):
    nz = c.int(tag + 'nz', 1, conc=(1, 4))
    out = {}
    for k, p in enumerate(probes):
        s = Sizes(c, tag + p)
        s.nz = nz
        out[p] = weight(c, s, tag + p, p, own=(k % 2 == 0))
        out[p].sizes = s
    return out


def spectrum(c, p, q, ws, tag='', widths=True, with_kernel=True):
    cl = c.target(CE + ':AngularCoefficient')(probe1=p, probe2=q)
    nl, a, b = c.int(f'{tag}nl_{p}_{q}', 1, conc=(1, 4)), ws[p].sizes, ws[q].sizes
    cl.c_lij = c.array(f'{tag}C_{p}_{q}', (nl, a.nb, b.nb))
    cl.l_bin_centers = c.array(f'{tag}l_{p}_{q}', (nl,))
    cl.l_bin_widths = c.array(f'{tag}dl_{p}_{q}', (nl,)) if widths else None
    if with_kernel:
        cl.kernel = kernel(c, a, b, p, q, f'{tag}{p}{q}')
        cl.kernel.weight1, cl.kernel.weight2 = ws[p], ws[q]
    return cl


def spectrum_same(c, name, got, want):
    for k in ('probe1', 'probe2', 'c_lij', 'l_bin_centers', 'l_bin_widths'):
        same(c, f'{name} {k}', getattr(got, k), getattr(want, k))
    if want.kernel is None:
        c.ensure(name + ' no kernel', got.kernel is None)
    else:
        kernel_same(c, name + ' kernel', got.kernel, want.kernel)
        weight_same(c, name + ' weight1', got.weight1, want.weight1)
        weight_same(c, name + ' weight2', got.weight2, want.weight2)


A = CE + '.AngularCoefficient.'


@contract('P22', [A + 'fromHDF5', A + 'saveToHDF5', A + 'loadFromHDF5', A + 'weight1', A + 'weight2', F + 'findGroup']
          + [CE + '.H5Cl.' + f for f in ('__init__', 'main_path_rel_to_root', 'absolute_main_path', 'readBuildingData', 'writeToObject', 'writeObjectToFile')],
          weight=3, trials=12)
def stored_spectrum(c):
    """a stored angular power spectrum reads back with its pair, multipoles, widths, kernel and weights"""
    p, q = c.choice('pair', [(PH, PH), (WL, PH), (PH, SP), (VD, VD)])
    ws = shared_weights(c, [p] if p == q else [p, q])
    x = spectrum(c, p, q, ws, widths=c.choice('widths', [True, False]), with_kernel=c.choice('kernel', [True, False]))
    root = c.choice('root', ['/', '/cls', 'cls'])
    with scratch() as d:
        f = d / 'cl.h5'
        x.saveToHDF5(f, root=root)
        K = c.target(CE + ':AngularCoefficient')
        again(c, lambda: K.fromHDF5(f, p, q, root), lambda: x.saveToHDF5(f, root=root), f, lambda n, y: spectrum_same(c, n, y, x))
        k = K(p, q)
        k.loadFromHDF5(f, root=root)
        spectrum_same(c, 'into an empty one', k, x)
        if p != q:
            c.raises('other pair', Exception, lambda: K.fromHDF5(f, q, p, root))


def spectra(c, probes, tag='', with_kernel=True, swap=False):
    ws = shared_weights(c, probes, tag)
    coll = c.target(CE + ':AngularCoefficientsCollector')()
    coll.z_grid = c.array(tag + 'z', (c.int(tag + 'n', 1, conc=(1, 4)),))
    coll.weight_dict = ws
    coll.cl_dict = {f'{p}_{q}': spectrum(c, p, q, ws, tag, with_kernel=with_kernel) for p, q in itertools.combinations_with_replacement(probes, 2)}
    return coll


def spectra_same(c, name, got, want):
    same(c, name + ' z', got.z_grid, want.z_grid)
    c.ensure(name + ' pairs', sorted(got.cl_dict) == sorted(want.cl_dict))
    for k in want.cl_dict:
        spectrum_same(c, f'{name} {k}', got.cl_dict[k], want.cl_dict[k])
    c.ensure(name + ' weights', sorted(got.weight_dict) == sorted(want.weight_dict))
    for k in want.weight_dict:
        weight_same(c, f'{name} {k}', got.weight_dict[k], want.weight_dict[k])


AK = CE + '.AngularCoefficientsCollector.'


@contract('P22', [AK + 'fromHDF5', AK + 'saveToHDF5', AK + 'loadFromHDF5', AK + '__getitem__']
          + [CE + '.H5ClCollection.' + f for f in ('__init__', 'writeToObject', 'writeObjectToFile')], weight=4, trials=10)
def stored_spectra(c):
    """the stored spectra of a forecast read back, each under its pair, with the weights of every probe"""
    probes = c.choice('probes', [[PH], [WL, PH], [SP, PH, WL]])
    x = spectra(c, probes, with_kernel=c.choice('kernel', [True, False]))
    with scratch() as d:
        f = d / 'cls.h5'
        x.saveToHDF5(f)
        K = c.target(CE + ':AngularCoefficientsCollector')
        again(c, lambda: K.fromHDF5(f), lambda: x.saveToHDF5(f), f, lambda n, y: spectra_same(c, n, y, x))
        k = K()
        k.loadFromHDF5(f)
        spectra_same(c, 'into an empty one', k, x)


@contract('P22', [AK + 'fromHDF5', AK + 'saveToHDF5', CE + '.H5ClCollection.writeToObject', CE + '.H5ClCollection.writeObjectToFile', CE + '.H5Cl.writeToObject'], weight=4, trials=10)
def spectra_under_two_roots(c):
    """spectra stored under two roots of one file do not mix"""
    probes = c.choice('probes', [[PH], [WL, PH]])
    roots = c.choice('roots', [('/fid', '/var'), ('/b', '/a')])
    xs = [spectra(c, probes, t) for t in ('A', 'B')]
    with scratch() as d:
        f = d / 'cls.h5'
        for r, x in zip(roots, xs):
            x.saveToHDF5(f, root=r)
        for r, x in zip(roots, xs):
            spectra_same(c, r, c.target(CE + ':AngularCoefficientsCollector').fromHDF5(f, r), x)


def covariance_block(c, s, tag, name, auto=True, full=True):
    d = c.target(DC + ':DeltaCl')(name=name)
    if auto is not None:
        d.probe_1, d.probe_2 = (name, name) if auto else (PH, WL)
    d.delta_c_lij, d.l_bin_centers = c.array(tag + 'D', (s.nl, s.nb, s.nb)), c.array(tag + 'l', (s.nl,))
    if full:
        d.inv_delta_c_lij, d.noise_lij, d.c_lij = (c.array(tag + k, (s.nl, s.nb, s.nb)) for k in ('I', 'N', 'C'))
        d.l_bin_widths = c.array(tag + 'dl', (s.nl,))
    return d


def block_same(c, name, got, want):
    for k in ('name', 'probe_1', 'probe_2', 'delta_c_lij', 'inv_delta_c_lij', 'l_bin_centers', 'l_bin_widths', 'noise_lij', 'c_lij'):
        same(c, f'{name} {k}', getattr(got, k), getattr(want, k))


D_ = DC + '.DeltaCl.'


@contract('P22', [D_ + 'fromHDF5', D_ + 'saveToHDF5', D_ + 'loadFromHDF5'] + [DC + '.H5DeltaCl.' + f for f in ('__init__', 'readBuildingData', 'writeToObject', 'writeObjectToFile')], weight=2)
def stored_covariance_block(c):
    """a stored covariance of spectra reads back with its name, probes, multipoles, noise, spectra and inverse"""
    s = Sizes(c)
    auto, full = c.choice('probes', [True, False, None]), c.choice('full', [True, False])
    x = covariance_block(c, s, '', PH if auto else '[GCph+WL+XC]', auto, full)
    root = c.choice('root', ['/', 'delta_cls/x'])
    with scratch() as d:
        f = d / 'd.h5'
        x.saveToHDF5(f, root=root)
        K = c.target(DC + ':DeltaCl')
        again(c, lambda: K.fromHDF5(f, x.name, root=root), lambda: x.saveToHDF5(f, root=root), f, lambda n, y: block_same(c, n, y, x))
        k = K(name=x.name)
        k.loadFromHDF5(f, root)
        block_same(c, 'into an empty one', k, x)


@contract('P22', [DC + '.DeltaClCollection.' + f for f in ('fromHDF5', 'saveToHDF5', 'loadFromHDF5')] + [DC + '.H5DeltaClCollection.' + f for f in ('__init__', 'writeToObject', 'writeObjectToFile')],
          weight=2, trials=12)
def stored_covariances(c):
    """the stored covariances and single blocks of a forecast read back each under its own name"""
    names = c.choice('names', [[PH], [PH, WL, '[GCph+WL+XC]']])
    coll = c.target(DC + ':DeltaClCollection')()
    for k, n in enumerate(names):
        coll[n] = covariance_block(c, Sizes(c, n), n, n, True if n in (PH, WL) else None, full=k != 1)
    for k, (p, q) in enumerate(itertools.combinations_with_replacement([n for n in names if n in (PH, WL)], 2)):
        b = covariance_block(c, Sizes(c, 's' + p + q), 's' + p + q, p if p == q else f'{p}_{q}', True, full=k != 1)
        b.probe_1, b.probe_2 = p, q
        coll.single_blocks[f'{p}_{q}'] = b
    root = c.choice('root', ['/', 'run'])
    with scratch() as d:
        f = d / 'd.h5'
        coll.saveToHDF5(f, root)
        K = c.target(DC + ':DeltaClCollection')
        e = K()
        e.loadFromHDF5(f, root)
        for n, y in (('read', K.fromHDF5(f, root)), ('into an empty one', e)):
            c.ensure(n + ' names', sorted(y.keys()) == sorted(names) and sorted(y.single_blocks) == sorted(coll.single_blocks))
            for k in names:
                block_same(c, f'{n} {k}', y[k], coll[k])
            for k in coll.single_blocks:
                block_same(c, f'{n} single {k}', y.single_blocks[k], coll.single_blocks[k])
        c.raises('not stored twice', Exception, lambda: coll.saveToHDF5(f, root))


@contract('P22', [CD + '.ClDerivativeCollector.' + f for f in ('writeToFile', 'loadFromFile', 'fromHDF5', '__getitem__')] + [CD + '.collect_cl_derivatives'], weight=2, trials=20)
def stored_derivatives(c):
    """the stored derivatives of the spectra read back under their pairs, those of a run under their parameters"""
    keys = c.choice('pairs', [[f'{PH}_{PH}'], [f'{WL}_{WL}', f'{WL}_{PH}', f'{PH}_{PH}', f'{SP}_{SP}']])
    K = c.target(CD + ':ClDerivativeCollector')
    xs = {}
    for v in ('Omm', 'bgph10'):
        x = xs[v] = K(dvar=v)
        for k in keys:
            p, q = k.split('_')
            nl, a, b = (c.int(f'{v}{k}{m}', 1, conc=(1, 4)) for m in ('l', 'i', 'j'))
            x.dcl_dict[k] = e = c.target(CD + ':ClDerivative')(p1=p, p2=q)
            e.dc_lij, e.l_bin_centers = c.array(f'd{v}{k}', (nl, a, b)), c.array(f'l{v}{k}', (nl,))

    def check(n, y, x):
        c.ensure(n + ' pairs', sorted(y.dcl_dict) == sorted(keys))
        for k in keys:
            same(c, f'{n} {k}', y[k].dc_lij, x[k].dc_lij)
            same(c, f'{n} {k} l', y[k].l_bin_centers, x[k].l_bin_centers)
            c.ensure(f'{n} {k} probes', f'{y[k].probe1}_{y[k].probe2}' == k)
    with scratch() as d:
        for v, x in xs.items():
            (d / v).mkdir()
            f = d / v / f'cl_derivatives_{v}.h5'
            x.writeToFile(f)
            y = K.fromHDF5(f, dvar=v)
            c.ensure('parameter', y.dvar == v)
            check('read', y, x)
        y.loadFromFile(d / 'Omm' / 'cl_derivatives_Omm.h5')
        check('the new content only', y, xs['Omm'])
        r = c.target(CD + ':collect_cl_derivatives')(d)
        c.ensure('parameters', sorted(r) == sorted(xs))
        for v, x in xs.items():
            c.ensure('pairs of the parameter', sorted(r[v]) == sorted(keys))
            for k in keys:
                same(c, f'{v} {k}', r[v][k], x[k].dc_lij)


class Json:
    """JSON text (trusted: numbers, text, booleans, lists and dictionaries read back as they were written)"""

    def __init__(self):
        self.docs = []

    def plain(self, v):
        from pyver.core import is_sym
        from fractions import Fraction
        if isinstance(v, dict):
            return {str(k): self.plain(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [self.plain(x) for x in v]
        if v is None or is_sym(v) or isinstance(v, (str, int, float, bool, Fraction)):
            return v
        raise TypeError(f"Object of type {type(v).__name__} is not JSON serializable")

    def dump(self, obj, fp, **kw):
        self.docs.append(self.plain(obj))
        fp.write(str(len(self.docs) - 1))

    def load(self, fp):
        return self.plain(self.docs[int(fp.read())])


PC = PM + '.PhysicalParametersCollection.'


@contract('P22', [PC + f for f in ('writeJSON', 'readJSON', 'fromJSON', 'from_dict_list', 'getParamsDictFromDictList', 'loadStemDisplacements', '__init__')]
          + [PM + '.PhysicalParameter.to_dict', PM + '.PhysicalParameter.from_dict', PM + '.PhysicalParameter.fromJSON'], weight=2, trials=20)
def stored_parameters(c):
    """the stored parameters read back with names, fiducial and current values, kinds, probes, factors, methods, flags, displacements"""
    if c.sym:
        c.patch(PM + ':json', Json())
    n = c.choice('n', [1, 3])
    pp, current = {}, c.choice('current', [True, False])
    for x, kind, probe, free in (('Omm', COSMO, None, True), ('OmDE', COSMO, None, False), ('bgph10', NUIS, PH, True), ('aIA', NUIS, WL, False)):
        pp[x] = par(c, x, free=free, kind=kind, probe=probe, current=current)[0]
    pp['bgph10'].derivative_method, pp['Omm'].units = 'Analytic', 'h/Mpc'
    b = [0.0123456789012, 0.0212345678901, 0.0512345678901][:n]
    flat = c.choice('flat', [True, False])
    K = c.target(PM + ':PhysicalParametersCollection')
    x = K(data_dict=pp, base_stem_disps=b, is_universe_flat=flat)
    with scratch() as d:
        x.writeJSON(d / 'params.json')

        def check(name, y, names, flat, disps):
            c.ensure(name + ' names', list(y.keys()) == names)
            for k in names:
                parameter_same(c, f'{name} {k}', y[k], pp[k])
            c.ensure(name + ' flat', y.is_universe_flat == flat)
            c.ensure(name + ' steps', [int(k) for k in y.stem_dict] == [k for k in range(-len(disps), len(disps) + 1) if k])
            c.ensure(name + ' displacements', c.and_(*[c.eq(y.stem_dict[k], disps[k - 1] if k > 0 else -disps[-k - 1]) for k in y.stem_dict]))
        check('read', K.fromJSON(d / 'params.json'), list(pp), flat, b)
        check('cosmological', K.fromJSON(d / 'params.json', only_cosmological=True), ['Omm', 'OmDE'], flat, b)
        y = K(data_dict={'Omm': par(c, 'Omm', fiducial=0.5)[0]}, base_stem_disps=[0.1], is_universe_flat=not flat)
        y.readJSON(d / 'params.json')
        check('into an existing one', y, list(pp), flat, b)
        y = K(base_stem_disps=[0.1], is_universe_flat=not flat)
        y.readJSON(d / 'params.json', only_cosmological=True)
        check('cosmological into an empty one', y, ['Omm', 'OmDE'], flat, b)


@contract('P22', [F + f for f in ('__init__', 'openFile', 'closeFile', 'save', 'load', 'root', 'root_path', 'attrs', '__getitem__', 'keys', 'createDataset', 'createGroup', '_create_dataset',
                                  '_create_group', 'createDatasets', 'writeToObject', 'findDataset', 'findGroup')], weight=2, trials=20)
def file_interface(c):
    """an existing file is never overwritten, an absent one or absent root is not readable, values of unknown kind are refused"""
    K = c.target(KF + ':H5Kernel')
    nz = c.int('nz', 1, conc=(1, 4))
    v = c.array('v', (nz,))
    with scratch() as d:
        f = d / 'x.h5'
        h = K()
        c.raises('not open', RuntimeError, lambda: K().writeToObject(ns()))
        c.raises('absent', Exception, lambda: K().openFile(f, 'r'))
        c.raises('mode', ValueError, lambda: K().openFile(f, 'q'))
        c.raises('file', TypeError, lambda: K().openFile(5, 'w'))
        c.raises('root', TypeError, lambda: K().openFile(f, 'w', root=None))
        c.ensure('nothing made', not f.exists())
        h.openFile(f, 'w')
        c.raises('not readable', RuntimeError, lambda: h.writeToObject(ns()))
        h.createDataset('v', v, attrs={'unit': 'h/Mpc'})
        g = h.createGroup('g')
        h.createDatasets({'w': v, 'n': 3, 't': 'text', 'x': 0.5}, base_grp=g)
        for bad in (None, [1, 2], {'a': 1}, object()):
            c.raises('kind of value', TypeError, lambda: h.createDataset('bad', bad))
        c.raises('name', TypeError, lambda: h.createDataset(5, v))
        c.raises('twice', Exception, lambda: h.createDataset('v', v))
        h.closeFile()
        c.raises('existing file', FileExistsError, lambda: K().openFile(f, 'w'))
        r = K()
        r.openFile(str(f), 'r')
        same(c, 'value', r['v'][()], v)
        same(c, 'group', r['g/w'][()], v)
        c.ensure('scalars', int(r['g']['n'][()]) == 3 and float(r['g/x'][()]) == 0.5 and r['g/t'][()] in (b'text', 'text'))
        c.ensure('names', sorted(r.keys()) == ['g', 'v'] and r.root_path == '/')
        c.ensure('attribute', r['v'].attrs['unit'] == 'h/Mpc')
        c.ensure('found', r.findDataset('w')[0] == 'g/w' and r.findGroup('g')[0] == 'g' and r.findGroup('nothere') is None)
        made = r.attrs['CreationDate']
        c.ensure('metadata', all(k in r.attrs for k in ('LastUpdate', 'Description', 'Author', 'CodeVersion')))
        c.raises('read only', Exception, lambda: r.createDataset('more', v))
        r.closeFile()
        c.raises('absent root', Exception, lambda: K().openFile(f, 'r', root='absent'))
        a = K()
        a.openFile(f, 'a', root='sub/h')
        a.createDataset('v', 2 * v)
        a.closeFile()
        r = K()
        r.openFile(f, 'r', root='sub/h')
        same(c, 'new', r['v'][()], 2 * v)
        same(c, 'old', r['/v'][()], v)
        c.ensure('root', r.root_path == '/sub/h')
        r.closeFile()
        r.openFile(f, 'r')
        c.ensure('date of creation kept', r.attrs['CreationDate'] == made)
        r.closeFile()
