"""Per-spectrum observational error: sqrt(1/(width x sky fraction)) x (spectrum + Poisson noise), and which noise is used."""
import itertools
from pathlib import Path
from types import SimpleNamespace
from pyver.api import contract
from contracts.p15_density import galaxy_density

DC = 'seyfert.fisher.delta_cl'
D, CO = DC + '.DeltaCl.', DC + '.DeltaClCollection.'
WF = 'seyfert.cosmology.weight_functions'
PH, SP, WL, VD = 'PhotometricGalaxy', 'SpectroscopicGalaxy', 'Lensing', 'Void'
FNS = [D + f for f in ('__init__', 'fromCl', 'computeNoise', 'evaluate', 'is_auto_correlation')] + \
      [CO + f for f in ('__init__', 'loadFiducialCls', 'evaluateSingleBlocks')] + \
      [WF + '.WeightFunction.setUp', WF + '.weight_function_for_probe', WF + '.LensingWeightFunction.__init__']


def forecast(c, probes, reduced=False):
    """a forecast configuration object holding one probe configuration per probe"""
    FC = c.target('seyfert.config.forecast_config:ForecastConfig')
    PC = c.target('seyfert.config.probe_config:ProbeConfig')
    f = FC()
    f.json_config = SimpleNamespace(f_sky=c.real('f_sky', positive=True, conc=(0.1, 1)), synthetic_opts={'shot_noise_sp_reduced': reduced}, survey={})
    for p in probes:
        pc = PC(p, input_data_dir=Path('.'))
        pc.density_init_file = Path('density_of_' + p)
        f.probe_configs[p] = pc
    f.probes_combinations = list(itertools.combinations_with_replacement(probes, 2))
    return f


def densities(c, probes, nb, own=()):
    d = {p: galaxy_density(c, p, p, nb[p], own=p in own) for p in probes}
    for p in probes:
        d[p].catalog_f_sky = c.real('catalog_' + p, positive=True, conc=(0.1, 1))
        if p not in own:
            d[p].evaluateBinNormFactors = lambda: None

    def read(file, root='/'):
        return d[str(file).split('density_of_')[1]]
    c.stub('seyfert.cosmology.redshift_density:RedshiftDensity.fromHDF5', staticmethod(read))
    return d


def spectra(c, probes, nb, pairs=None):
    AC = c.target('seyfert.cosmology.c_ells:AngularCoefficient')
    coll = c.target('seyfert.cosmology.c_ells:AngularCoefficientsCollector')()
    for p, q in pairs or itertools.combinations_with_replacement(probes, 2):
        L = c.int(f'L_{p}_{q}', 1, conc=(1, 4))
        cl = AC(probe1=p, probe2=q)
        k = f'{p}_{q}'
        if c.is_native():
            import numpy as np
            base = np.arange(1., int(nb[p]) * int(nb[q]) + 1).reshape(int(nb[p]), int(nb[q]))
            eye = np.eye(int(nb[p]), int(nb[q]))
            cl.c_lij = c.array('C_' + k, (L, nb[p], nb[q]), conc=(0.1, 0.3)) + (3 * eye)
        else:
            cl.c_lij = c.array('C_' + k, (L, nb[p], nb[q]))
        cl.l_bin_centers = c.array('l_' + k, (L,), increasing=True, positive=True)
        cl.l_bin_widths = c.array('dl_' + k, (L,), positive=True)
        coll.cl_dict[k] = cl
    return coll


def count(c, d, i):
    """galaxies per steradian in bin i"""
    if d.has_niz_from_input:
        return c.get(d.dN_dOmega_bins, i)
    s = c.spline(d.input_z_domain, d.input_dN_dz_dOmega, ext=1)
    return c.quad(lambda x: s(x), c.get(d.z_bin_edges, i), c.get(d.z_bin_edges, i + 1))


def check_block(c, b, cl, noise, f_sky):
    """noise(i, j) -> expected noise"""
    L, n, m = b.delta_c_lij.shape
    c.ensure('shape', c.and_(c.shape_eq(b.delta_c_lij, cl.c_lij.shape), c.shape_eq(b.noise_lij, cl.c_lij.shape)))
    c.forall('noise', [L, n, m], lambda l, i, j: c.eq(c.get(b.noise_lij, l, i, j), noise(l, i, j)))
    c.forall('error', [L, n, m], lambda l, i, j: c.eq(
        c.get(b.delta_c_lij, l, i, j), c.sqrt(c.div(1, c.get(cl.l_bin_widths, l) * f_sky)) * (c.get(cl.c_lij, l, i, j) + noise(l, i, j))))
    c.fresh_array_equal('multipoles', b.l_bin_centers, cl.l_bin_centers)
    c.fresh_array_equal('widths', b.l_bin_widths, cl.l_bin_widths)


@contract('P16', FNS, weight=4)
def poisson_noise(c):
    """auto-correlations carry the shot noise of their own probe on the diagonal, cross-correlations carry none; lensing noise is
    scaled by the squared ellipticity dispersion; each probe has its inverse"""
    probes = c.choice('probes', [[PH], [WL], [SP], [PH, WL], [PH, SP]])
    own = c.choice('own_distributions', [False, True])
    nb = {p: c.int('bins_' + p, 1, conc=(1, 3)) for p in probes}
    f = forecast(c, probes)
    d = densities(c, probes, nb, own=[p for p in probes if own])
    if c.sym:
        c.patch('seyfert.cosmology.redshift_density:RedshiftDensity.evaluateBinNormFactors', lambda self: None)
    cls = spectra(c, probes, nb)
    coll = c.target(DC + ':DeltaClCollection')(fcfg=f)
    coll.loadFiducialCls(cls)
    coll.evaluateSingleBlocks()
    c.ensure('blocks', list(coll.single_blocks) == list(cls.cl_dict))
    c.ensure('single probes', sorted(coll.keys()) == sorted(probes))
    for k, cl in cls.cl_dict.items():
        p, q = k.split('_')
        b = coll.single_blocks[k]
        if p != q:
            check_block(c, b, cl, lambda l, i, j: 0, f.survey_f_sky)
            c.ensure('no inverse of a cross', b.inv_delta_c_lij is None)
            continue
        fac = c.frac(9, 100) if p == WL else 1
        check_block(c, b, cl, lambda l, i, j: c.ite(c.eq(i, j), fac * c.div(1, count(c, d[p], i)), 0), f.survey_f_sky)
        c.ensure('stored under the probe', coll[p] is b and b.name == p)
        c.fresh_array_equal('inverse', b.inv_delta_c_lij, c.np().linalg.inv(b.delta_c_lij))


@contract('P16', FNS + ['seyfert.cosmology.redshift_density.RedshiftDensity.computeTotalGalaxyNumber'], weight=3)
def reduced_spectroscopic_noise(c):
    """on request the spectroscopic noise is that of the photometric sample size: scaled by N_sp/N_ph; the others are untouched"""
    probes = [PH, SP]
    reduced = c.choice('reduced', [True, False])
    nb = {p: c.int('bins_' + p, 1, conc=(1, 3)) for p in probes}
    f = forecast(c, probes, reduced=reduced)
    d = densities(c, probes, nb)
    if c.sym:
        c.patch('seyfert.cosmology.redshift_density:RedshiftDensity.evaluateBinNormFactors', lambda self: None)
    pi = c.np().pi
    tot = {p: c.simps(d[p].input_dN_dz_dOmega, d[p].input_z_domain) * 4 * pi * d[p].catalog_f_sky for p in probes}
    if c.sym:
        c.require(c.simps(d[PH].input_dN_dz_dOmega, d[PH].input_z_domain) != 0)
    cls = spectra(c, probes, nb, [(PH, PH), (SP, SP)])
    coll = c.target(DC + ':DeltaClCollection')(fcfg=f)
    coll.loadFiducialCls(cls)
    coll.evaluateSingleBlocks()
    for p in probes:
        k = p + '_' + p
        r = c.div(tot[SP], tot[PH]) if p == SP and reduced else 1
        check_block(c, coll.single_blocks[k], cls.cl_dict[k], lambda l, i, j: c.ite(
            c.eq(i, j), c.div(1, count(c, d[p], i)) * r, 0), f.survey_f_sky)


@contract('P16', FNS, weight=2)
def given_sky_fraction(c):
    """a sky fraction given explicitly replaces the survey's one, and noise already present is not recomputed"""
    probes = c.choice('probes', [[PH], [WL, VD]])
    nb = {p: c.int('bins_' + p, 1, conc=(1, 3)) for p in probes}
    f = forecast(c, probes)
    cls = spectra(c, probes, nb)
    coll = c.target(DC + ':DeltaClCollection')(fcfg=f)
    coll.loadFiducialCls(cls)
    noise = {}
    for k, b in coll.single_blocks.items():
        p, q = k.split('_')
        noise[k] = b.noise_lij = c.array('N_' + k, (c.len(b.l_bin_centers), nb[p], nb[q]), conc=(0.01, 0.1))
    given = c.choice('given', [True, False])
    fs = c.real('given_f_sky', positive=True, conc=(0.1, 1))
    coll.evaluateSingleBlocks(fs) if given else coll.evaluateSingleBlocks()
    for k, cl in cls.cl_dict.items():
        check_block(c, coll.single_blocks[k], cl, lambda l, i, j: c.get(noise[k], l, i, j), fs if given else f.survey_f_sky)
    c.ensure('single probes', sorted(coll.keys()) == sorted(probes))


@contract('P16', [CO + 'buildXCBlocks', CO + 'ell_dict', CO + 'delta_c_lij_array_dict', 'seyfert.fisher.fisher_utils.buildXCBlockMatrixForProbes',
                  'seyfert.fisher.fisher_utils.get_probes_xc_fisher_name', D + '__init__'], weight=3, trials=12)
def cross_correlated_blocks(c):
    """for two or more probes the joint matrix of all of them and, for three or more, of every pair is built from the evaluated blocks on
    the multipoles they share, with its inverse"""
    probes = c.choice('probes', [[PH], [WL, PH], [PH, SP, WL]])
    nb = {p: c.int('bins_' + p, 1, conc=(1, 2)) for p in probes}
    f = forecast(c, probes)
    coll = c.target(DC + ':DeltaClCollection')(fcfg=f)
    cls = spectra(c, probes, nb)
    coll.loadFiducialCls(cls)
    for k, b in coll.single_blocks.items():
        p, q = k.split('_')
        if c.is_native():
            import numpy as np
            b.l_bin_centers = np.arange(10., 10. + 1 + len(b.l_bin_centers))
            b.delta_c_lij = c.array('D_' + k, (len(b.l_bin_centers), nb[p], nb[q]), conc=(0.1, 0.3)) + 3 * (p == q) * np.eye(int(nb[p]), int(nb[q]))
        else:
            b.delta_c_lij = c.array('D_' + k, (c.len(b.l_bin_centers), nb[p], nb[q]))
    seen = {}
    if c.sym:
        def joint(probes=None, matrix_dict=None, l_dict=None):
            k = tuple(probes)
            c.require(True)
            ok = all(matrix_dict[x] is coll.single_blocks[x].delta_c_lij and l_dict[x] is coll.single_blocks[x].l_bin_centers
                     for x in coll.single_blocks)
            seen[k] = (c.array('xl_' + '_'.join(k), (c.int('n' + '_'.join(k), 1),)), c.array('xm_' + '_'.join(k), (2, 5, 5)), ok)
            return seen[k][:2]
        c.patch('seyfert.fisher.fisher_utils:buildXCBlockMatrixForProbes', joint)
    coll.buildXCBlocks()
    groups = [] if len(probes) == 1 else [tuple(probes)]
    if len(probes) > 2:
        groups += list(itertools.combinations(probes, 2))
    alias = {PH: 'GCph', SP: 'GCsp', WL: 'WL', VD: 'V'}
    name = c.target('seyfert.fisher.fisher_utils:get_probes_xc_fisher_name')
    c.ensure('one block per group', sorted(coll.keys()) == sorted(name(probes=list(g)) for g in groups))
    for g in groups:
        b = coll[name(probes=list(g))]
        if c.sym:
            l, m, ok = seen[g]
            c.ensure('of the evaluated blocks', ok)
        else:
            sb = coll.single_blocks
            l, m = c.target('seyfert.fisher.fisher_utils:buildXCBlockMatrixForProbes')(
                probes=list(g), matrix_dict={k: sb[k].delta_c_lij for k in sb}, l_dict={k: sb[k].l_bin_centers for k in sb})
        c.fresh_array_equal('multipoles', b.l_bin_centers, l)
        c.fresh_array_equal('matrix', b.delta_c_lij, m)
        c.fresh_array_equal('inverse', b.inv_delta_c_lij, c.np().linalg.inv(m))


class StandInFile:
    """HDF5 file as a mapping name -> array (trusted: what is stored is what is read)"""
    store = {}

    def __init__(self, path, mode='r', **kw):
        self.d = StandInFile.store.setdefault(str(path), {})
        self.attrs = {}

    def create_dataset(self, name=None, data=None):
        if name in self.d:
            raise ValueError("name already exists")
        self.d[name] = {(): data}

    def __getitem__(self, k):
        return self.d[k]

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.d)

    def keys(self):
        return self.d.keys()

    def get(self, k, default=None):
        return self.d.get(k, default)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


@contract('P16', [CO + 'loadShotNoiseFromFile', CO + 'writeShotNoiseToFile', D + 'evaluate'], weight=2, trials=10)
def noise_from_file(c):
    """noise read from a file is used at every multipole of its pair of probes, and noise written reads back"""
    probes = c.choice('probes', [[PH], [WL, PH]])
    nb = {p: c.int('bins_' + p, 1, conc=(1, 3)) for p in probes}
    f = forecast(c, probes)
    cls = spectra(c, probes, nb)
    new = lambda: c.target(DC + ':DeltaClCollection')(fcfg=f)
    noise = {k: c.array('N_' + k, tuple(cl.c_lij.shape[1:]), conc=(0.01, 0.1)) for k, cl in cls.cl_dict.items()}
    if c.sym:
        StandInFile.store.clear()
        c.patch(DC + ':h5py', SimpleNamespace(File=StandInFile))
        StandInFile.store['in.h5'] = {k: {(): v} for k, v in noise.items()}
    with c.scratch_dir(None) as where:
        path = (lambda n: n) if c.sym else (lambda n: str(where) + '/' + n)
        if not c.sym:
            import h5py
            with h5py.File(path('in.h5'), 'w') as hf:
                for k, v in noise.items():
                    hf[k] = v
        coll = new()
        coll.loadFiducialCls(cls)
        coll.loadShotNoiseFromFile(path('in.h5'))
        coll.evaluateSingleBlocks()
        for k, cl in cls.cl_dict.items():
            check_block(c, coll.single_blocks[k], cl, lambda l, i, j: c.get(noise[k], i, j), f.survey_f_sky)
        coll.writeShotNoiseToFile(path('out.h5'))
        again = new()
        again.loadFiducialCls(cls)
        again.loadShotNoiseFromFile(path('out.h5'))
        for k, cl in cls.cl_dict.items():
            c.fresh_array_equal('written noise reads back', again.single_blocks[k].noise_lij, coll.single_blocks[k].noise_lij)


@contract('P16', [CO + 'loadShotNoiseFromFile', D + 'evaluate'], weight=1, trials=4)
def noise_missing_from_the_file(c):
    """a noise file that lacks a pair of probes is refused: the noise of that pair is neither left out nor replaced by the Poisson one"""
    probes = [WL, PH]
    nb = {p: c.int('bins_' + p, 1, conc=(1, 3)) for p in probes}
    f = forecast(c, probes)
    cls = spectra(c, probes, nb)
    lacking = c.choice('lacking', list(cls.cl_dict) if c.sym else [f'{WL}_{WL}', f'{WL}_{PH}', f'{PH}_{PH}'])
    noise = {k: c.array('N_' + k, tuple(cl.c_lij.shape[1:]), conc=(0.01, 0.1)) for k, cl in cls.cl_dict.items() if k != lacking}
    if c.sym:
        StandInFile.store.clear()
        c.patch(DC + ':h5py', SimpleNamespace(File=StandInFile))
        StandInFile.store['in.h5'] = {k: {(): v} for k, v in noise.items()}
    with c.scratch_dir(None) as where:
        path = 'in.h5' if c.sym else str(where) + '/in.h5'
        if not c.sym:
            import h5py
            with h5py.File(path, 'w') as hf:
                for k, v in noise.items():
                    hf[k] = v
        coll = c.target(DC + ':DeltaClCollection')(fcfg=f)
        coll.loadFiducialCls(cls)
        c.raises('refused', Exception, lambda: coll.loadShotNoiseFromFile(path))
