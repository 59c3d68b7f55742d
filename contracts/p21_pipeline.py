"""Displaced spectra: which file, parameter values and step go together along the whole run."""
import contextlib
import itertools
import random
import tempfile
from pathlib import Path
from types import SimpleNamespace
from pyver.api import contract
from contracts.p09_parameters import par, base, displaced, COSMO, NUIS

ns = SimpleNamespace
FS, WS = 'seyfert.utils.filesystem_utils', 'seyfert.utils.workspace'
DI, CD = 'seyfert.derivatives.differentiator', 'seyfert.derivatives.cl_derivative'
CC, DC, FC = 'seyfert.main.cl_core', 'seyfert.main.cl_derivative_core', 'seyfert.main.fisher_core'
TR = 'seyfert.main.task_runners'
PM = 'seyfert.cosmology.parameter'
PH, SP, WL = 'PhotometricGalaxy', 'SpectroscopicGalaxy', 'Lensing'
NAMES = ['Omm', 'w0', 'wa', 'sigma8', 'h', 'ns', 'bgph0', 'bgph10', 'bgsp3', 'aIA', 'eIA', 'W', 'step', 'dvar', 'p', 'm', '0', 'central']


@contract('P21', [FS + '.get_cosmology_jobdir_name', FS + '.get_dvar_step_from_cosmology_jobdir_name',
                  FS + '.get_dvar1_dvar2_from_fisher_jobdir_name', FS + '.get_fisher_jobdir_name_from_dvar1_dvar2',
                  FS + '.get_derivative_jobdir_name_from_dvar', FS + '.get_dvar_from_derivative_jobdir_name'],
          mode='bounded', trials=2, bound='18 names, steps -130 to 130')
def directory_names(c):
    """the name of a directory gives back the parameter and signed step it was made for; different ones have different names"""
    name, back = c.target(FS + ':get_cosmology_jobdir_name'), c.target(FS + ':get_dvar_step_from_cosmology_jobdir_name')
    ws = c.target(WS + ':WorkSpace')('/nowhere/run')
    seen = set()
    for x in NAMES:
        for s in range(-130, 131):
            d = name(x, s)
            c.ensure('inverse', tuple(back(d)) == (x, s))
            c.ensure('inverse, workspace', tuple(ws.getDvarStepFromCosmoDirName(d)) == (x, s))
            c.ensure('power spectrum of the step', ws.getPowerSpectrumFile(x, s).parent == ws.pmm_dir / d)
            seen.add(d)
    c.ensure('distinct', len(seen) == 261 * len(NAMES))
    f, g = c.target(FS + ':get_fisher_jobdir_name_from_dvar1_dvar2'), c.target(FS + ':get_dvar1_dvar2_from_fisher_jobdir_name')
    e, h = c.target(FS + ':get_derivative_jobdir_name_from_dvar'), c.target(FS + ':get_dvar_from_derivative_jobdir_name')
    for x in NAMES:
        c.ensure('derivative', h(e(x)) == x)
        for y in NAMES:
            c.ensure('pair', tuple(g(f(x, y))) == (x, y))
    for bad in ['', 'Omm', 'dvar_Omm', 'dvar_Omm_step', 'step_p_1', 'dvar__step_p_1']:
        c.raises('not such a name', Exception, lambda: back(bad))


@contextlib.contextmanager
def run_dir(seed):
    """a scratch run directory whose files are listed in an arbitrary order"""
    r = random.Random(seed)
    with tempfile.TemporaryDirectory(prefix='pyver') as d:
        glob, iterdir = Path.glob, Path.iterdir

        def shuffled(it):
            x = sorted(it)
            r.shuffle(x)
            return iter(x)
        Path.glob = lambda self, pattern: shuffled(glob(self, pattern))
        Path.iterdir = lambda self: shuffled(iterdir(self))
        try:
            yield Path(d)
        finally:
            Path.glob, Path.iterdir = glob, iterdir


def step_dir(root, name, step):
    s = '0' if step == 0 else ('m_' if step < 0 else 'p_') + str(abs(step))
    return root / f'dvar_{name}_step_{s}'


def fill(root, what, file):
    """directories of the (name, step) pairs with the file and the other things a job leaves there"""
    for name, step in what:
        d = step_dir(root, name, step)
        d.mkdir(parents=True, exist_ok=True)
        for f in (file, 'params.json', f'job_{d.name}_2026-01-01T00-00-00.sh', 'logfile_compute.log', 'angular_config.json'):
            (d / f).write_text('')
    return root


def steps_of(n):
    return [s for s in range(-n, n + 1) if s]


def collection(c, n, fixed=False):
    """h and wa (cosmological) and bgph1 (nuisance) with n displacements on each side"""
    b = [0.01 * (k + 1) for k in range(n)] if fixed else base(c, n)
    ps, fs, ks = {}, {}, {}
    for x, kind, probe in [('h', COSMO, None), ('wa', COSMO, None), ('bgph1', NUIS, PH)]:
        ps[x], fs[x], ks[x] = par(c, x, kind=kind, probe=probe, current=False)
    pc = c.target(PM + ':PhysicalParametersCollection')(base_stem_disps=list(b), data_dict=ps, is_universe_flat=True)
    return pc, b, fs, ks


def value(c, b, f, k, step):
    return f if step == 0 else displaced(c, f, k, (1 if step > 0 else -1) * b[abs(step) - 1])


def values_of(c, pc, b, fs, ks, x, n):
    """values of the parameter at the steps -n..n; symbolically an arbitrary vector: by the contract of computePhysParSTEMValues (P09)
    its entries are the values at the steps in increasing order"""
    if not c.sym:
        c.require(abs(ks[x]) > 0.05 and (fs[x] == 0 or abs(fs[x]) > 0.05))
        return [value(c, b, fs[x], ks[x], s) for s in range(-n, n + 1)]
    X = c.array('x', (2 * n + 1,))

    def values(self, dvar=None):
        c.ensure('values of this parameter', self is pc and dvar == x)
        return X
    c.patch(PM + ':PhysicalParametersCollection.computePhysParSTEMValues', values)
    return [c.get(X, t) for t in range(2 * n + 1)]


def linear(c, shape, xs):
    """spectra that are exactly A + B x at the values xs: their derivative is B"""
    A, B = c.array('A', shape, positive=True), c.array('B', shape, positive=True)
    return [A + x * B for x in xs], B


@contract('P21', [DI + '.SteMClDifferentiator.collectClVariationsFiles', DI + '.SteMClDifferentiator.loadClData',
                  DI + '.ClDifferentiator.loadClData', DI + '.SteMClDifferentiator.doComputeDerivative', WS + '.WorkSpace.getClFile',
                  FS + '.get_file_from_dir_with_pattern', PM + '.PhysicalParametersCollection.computePhysParSTEMValues',
                  CD + '.ClDerivative.evaluate', DI + '.ClDifferentiator.computeDerivative'], weight=3,
          bound='1, 2, 7, 10 or 12 displacements on each side, 4 listing orders of the directory')
def spectra_of_the_parameter(c):
    """the derivative by a parameter pairs the spectra in the directory of each of its steps (the central ones for step 0) with the
    value the parameter has at that step, whatever order directories are listed in and whatever other parameters were varied"""
    n = c.choice('n', [1, 2, 7, 10, 12])
    x = c.choice('parameter', ['h', 'bgph1'])
    pc, b, fs, ks = collection(c, n, fixed=True)
    ss = list(range(-n, n + 1))
    val = dict(zip(ss, values_of(c, pc, b, fs, ks, x, n)))
    shape = (2, 2, 3)
    if c.sym:
        C = {s: c.array(f'C{s}', shape) for s in ss}
        B = None
    else:
        y, B = linear(c, shape, [val[s] for s in ss])
        C = dict(zip(ss, y))
        if any(((v <= 0.05)).any() for v in y):
            c.require(False)
    with run_dir(c.choice('listing', list(range(4)))) as d:
        others = [('central', 0)] + [(o, s) for o in ('h', 'bgph1', 'bgph11', 'hh') for s in steps_of(n)]
        fill(d / 'Angular', others, 'cl_WL_GCph.h5')
        ws = c.target(WS + ':WorkSpace')(d)
        ws.getParamsCollection = lambda: pc
        L = c.array('ells', (2,), positive=True)

        def load(file, probe1, probe2, root='/'):
            p1, p2 = probe1, probe2
            c.ensure('pair', (p1, p2) == (PH, SP))
            where = {step_dir(d / 'Angular', o, s): s for o, s in others if o in (x, 'central')}
            c.ensure('only files of the parameter and the central one', Path(file).parent in where)
            c.ensure('file', Path(file).name == 'cl_WL_GCph.h5')
            return ns(c_lij=C[where[Path(file).parent]], l_bin_centers=L, probe1=p1, probe2=p2, obs_key=f'{p1}_{p2}')
        c.stub(DI + ':c_ells.AngularCoefficient.fromHDF5', load)
        dcl = c.target(CD + ':ClDerivative')(PH, SP, pc[x], ws)
        pc[x].derivative_method = 'SteM'
        if c.sym:
            got = ns()
            res = c.array('slope', shape)

            def fit(dvar_vals, c_dvar_lij):
                got.x, got.y = dvar_vals, c_dvar_lij
                return res
            c.patch(DI + ':SteMClDifferentiator.vectorizedSteM', staticmethod(fit))
        dcl.evaluate()
    c.ensure('multipoles', dcl.l_bin_centers is L)
    if c.sym:
        c.ensure('the fitted slope', dcl.dc_lij is res)
        c.ensure('number', c.and_(c.shape_eq(got.x, (2 * n + 1,)), c.shape_eq(got.y, (2 * n + 1,) + shape)))
        c.ensure('values of the steps', c.and_(*[c.eq(c.get(got.x, t), val[s]) for t, s in enumerate(ss)]))
        c.forall('spectra of the steps', list(shape),
                 lambda l, i, j: c.and_(*[c.eq(c.get(got.y, t, l, i, j), c.get(C[s], l, i, j)) for t, s in enumerate(ss)]))
    else:
        c.forall('derivative', list(shape), lambda l, i, j: c.eq(c.get(dcl.dc_lij, l, i, j), c.get(B, l, i, j)))


@contract('P21', [DI + '.SteMClDifferentiator.collectClVariationsFiles', FS + '.get_file_from_dir_with_pattern'], weight=1)
def missing_variations(c):
    """a parameter without displaced spectra, or a directory without exactly one spectra file, is refused"""
    case = c.choice('case', ['none', 'no central', 'two central'])
    with run_dir(0) as d:
        fill(d / 'Angular', ([] if case == 'no central' else [('central', 0)]) + [('wa', s) for s in (-1, 1)], 'cl_WL.h5')
        if case != 'none':
            fill(d / 'Angular', [('h', s) for s in (-1, 1)], 'cl_WL.h5')
        if case == 'no central':
            fill(d / 'Angular', [('central', 0)], 'params.json')
        if case == 'two central':
            fill(d / 'Angular', [('central', 0)], 'cl_GCph.h5')
        ws = c.target(WS + ':WorkSpace')(d)
        diff = c.target(DI + ':SteMClDifferentiator')(probe1=PH, probe2=PH, param=ns(name='h'), workspace=ws)
        c.raises('refused', Exception, diff.collectClVariationsFiles)


@contract('P21', [CD + '.ClDerivative.evaluate'], weight=1)
def chosen_method(c):
    """the method configured for the parameter is the one used; unknown methods are refused"""
    m = c.choice('method', ['SteM', 'Analytic', 'stem', '', None, '3PT'])
    calls = []

    def method(name):
        def make(**kw):
            calls.append((name, kw['probe1'], kw['probe2'], kw['param'], kw['workspace']))
            return ns(loadClData=lambda: calls.append('load'), computeDerivative=lambda: calls.append('compute') or name,
                      fiducial_cl=ns(l_bin_centers='ells'))
        return make
    c.stub(CD + ':SteMClDifferentiator', method('SteM'))
    c.stub(CD + ':AnalyticClDifferentiator', method('Analytic'))
    p, w = ns(derivative_method=m, name='x'), object()
    d = c.target(CD + ':ClDerivative')(WL, PH, p, w)
    if m not in ('SteM', 'Analytic'):
        c.raises('refused', NotImplementedError, d.evaluate)
        return
    d.evaluate()
    c.ensure('computed', calls == [(m, WL, PH, p, w), 'load', 'compute'])
    c.ensure('stored', d.dc_lij == m and d.l_bin_centers == 'ells')


@contract('P21', [CD + '.ClDerivativeCollector.__init__', CD + '.ClDerivativeCollector.setUp', CD + '.ClDerivativeCollector.evaluateDerivatives',
                  CD + '.ClDerivativeCollector.ell_dict', CD + '.ClDerivativeCollector.dc_lij_array_dict'], weight=1)
def all_pairs(c):
    """one derivative, by the requested parameter, for every pair of tracers of the forecast"""
    probes = c.choice('probes', [[PH], [PH, WL], [WL, PH, SP], [SP, WL]])
    pairs = list(itertools.combinations_with_replacement(probes, 2))
    pp = {x: ns(name=x, derivative_method='SteM') for x in ('h', 'wa', 'bgph1')}
    x = c.choice('parameter', list(pp))
    ws = ns(getForecastConfiguration=lambda: ns(probes_combinations=pairs), getParamsCollection=lambda: pp)
    done = []

    def evaluate(self):
        done.append((self.probe1, self.probe2, self.param, self.workspace))
        self.dc_lij, self.l_bin_centers = ('d', self.probe1, self.probe2), ('l', self.probe1, self.probe2)
    c.stub(CD + ':ClDerivative.evaluate', evaluate)
    k = c.target(CD + ':ClDerivativeCollector')(dvar=x, workspace=ws)
    k.setUp()
    k.evaluateDerivatives()
    c.ensure('every pair', sorted(p[:2] for p in done) == sorted(pairs))
    c.ensure('parameter', all(p[2] is pp[x] and p[3] is ws for p in done))
    c.ensure('stored under the pair', k.dc_lij_array_dict == {f'{p}_{q}': ('d', p, q) for p, q in pairs})
    c.ensure('multipoles of the pair', k.ell_dict == {f'{p}_{q}': ('l', p, q) for p, q in pairs})


@contract('P21', [CC + '.load_cosmology', WS + '.WorkSpace.getPowerSpectrumFile'], weight=1)
def cosmology_of_the_step(c):
    """a cosmological parameter uses the cosmology computed at its own step, a nuisance parameter and the fiducial the central one"""
    pc, b, fs, ks = collection(c, 2)
    x = c.choice('parameter', ['h', 'wa', 'bgph1', 'central'])
    s = c.choice('step', [-2, -1, 1, 2]) if x != 'central' else 0
    same = c.choice('as in the file', [True, False])
    stored = ns(params=pc.cosmological_parameters if same else {'gamma': 1, 'h': par(c, 'h2')[0]})
    files = []
    c.stub(CC + ':Cosmology.fromHDF5', lambda f: files.append(f) or stored)
    r = c.target(CC + ':load_cosmology')(c.target(WS + ':WorkSpace')('/nowhere/run'), x, s, pc)
    own = x in ('h', 'wa')
    c.ensure('file', [Path(f) for f in files] == [step_dir(Path('/nowhere/run/PowerSpectrum'), x if own else 'central', s if own else 0) / 'p_mm.h5'])
    c.ensure('cosmology', r is stored)


@contract('P21', [CC + '.compute_cls_variations', PM + '.PhysicalParametersCollection.updatePhysicalParametersForDvarStep',
                  PM + '.PhysicalParametersCollection.resetPhysicalParametersToFiducial'], weight=3)
def varied_spectra(c):
    """spectra at every step are computed with the parameter at its value of the step and every other one at the fiducial, with the
    cosmology of that step; they are stored under the step, the fiducial ones under 0, and the parameters are fiducial afterwards"""
    pc, b, fs, ks = collection(c, 7, fixed=True)
    x = c.choice('parameter', ['h', 'wa', 'bgph1'])
    seen = []
    run, dens, fcfg, acfg, fid, fc0 = object(), object(), object(), object(), object(), object()

    def load(ws, dvar, step, phys_pars):
        c.ensure('asked from this run', ws is run and phys_pars is pc)
        return ('cosmology', dvar, int(step))

    def compute(cosmology, phys_pars, densities, forecast_config, angular_config, **kw):
        c.ensure('inputs', phys_pars is pc and densities is dens and forecast_config is fcfg and angular_config is acfg)
        c.ensure('fiducial cosmology', kw.get('fiducial_cosmology') is fc0)
        seen.append((cosmology, {p: pc[p].current_value for p in pc}))
        return ns(which=len(seen) - 1)
    c.stub(CC + ':load_cosmology', load)
    c.stub(CC + ':compute_cls', compute)
    r = c.target(CC + ':compute_cls_variations')(x, fid, run, pc, dens, fcfg, acfg, fiducial_cosmology=fc0)
    c.ensure('steps', sorted(int(s) for s in r) == list(range(-7, 8)))
    c.ensure('fiducial', r[0] is fid)
    for s in steps_of(7):
        cosmology, now = seen[r[s].which]
        c.ensure('cosmology of the step', cosmology == ('cosmology', x, s))
        for p in now:
            c.ensure('values at the step', c.eq(now[p], value(c, b, fs[p], ks[p], s) if p == x else fs[p]))
    for p in pc:
        c.ensure('fiducial afterwards', c.eq(pc[p].current_value, fs[p]))


@contract('P21', [DC + '.compute_cls_derivatives_wrt', DI + '.SteMClDifferentiator.doComputeDerivative'], weight=3)
def derivatives_of_varied_spectra(c):
    """the derivative of every pair fits its spectra at each step against the value of the parameter at that step; the multipoles are
    those of the fiducial spectra of the pair"""
    n = 7
    pc, b, fs, ks = collection(c, n, fixed=True)
    x = c.choice('parameter', ['h', 'bgph1'])
    ss = list(range(-n, n + 1))
    val = values_of(c, pc, b, fs, ks, x, n)
    pairs = {(PH, PH): (2, 2, 2), (WL, PH): (2, 3, 2)}
    order = list(ss)
    random.Random(c.choice('order', list(range(4)))).shuffle(order)
    C, B, L = {}, {}, {}
    for k, shape in pairs.items():
        for s in ss:
            L[k, s] = c.array(f'l{k[0][0]}{s}', (shape[0],), positive=True)
        if c.sym:
            for s in ss:
                C[k, s] = c.array(f'C{k[0][0]}{s}', shape)
        else:
            A, B[k] = c.array(f'A{k[0]}', shape, positive=True), c.array(f'B{k[0]}', shape, positive=True)
            for s, v in zip(ss, val):
                C[k, s] = A + v * B[k]
                c.require((C[k, s] > 0.05).all())
    coll = {}
    for s in order:
        ks_ = list(pairs)
        random.Random(s).shuffle(ks_)
        d = {f'{p}_{q}': ns(c_lij=C[(p, q), s], l_bin_centers=L[(p, q), s]) for p, q in ks_}
        coll[s] = type('Coll', (dict,), {'cl_dict': d})(d)
    c.stub(DC + ':compute_cls_variations', lambda dvar, fid, *a, **kw: (c.ensure('parameter', dvar == x), coll)[1])
    fits = []
    if c.sym:
        def fit(dvar_vals, c_dvar_lij):
            fits.append((dvar_vals, c_dvar_lij, c.array(f'slope{len(fits)}', tuple(c_dvar_lij.shape[1:]))))
            return fits[-1][2]
        c.patch(DI + ':SteMClDifferentiator.vectorizedSteM', staticmethod(fit))
    r = c.target(DC + ':compute_cls_derivatives_wrt')(x, object(), object(), pc, object(), object(), object())
    c.ensure('pairs', sorted(r.dcl_dict) == sorted(f'{p}_{q}' for p, q in pairs))
    for (p, q), shape in pairs.items():
        e = r.dcl_dict[f'{p}_{q}']
        c.ensure('pair', (e.probe1, e.probe2) == (p, q))
        c.forall('fiducial multipoles', [shape[0]], lambda l: c.eq(c.get(e.l_bin_centers, l), c.get(L[(p, q), 0], l)))
        if not c.sym:
            c.forall('derivative', list(shape), lambda l, i, j: c.eq(c.get(e.dc_lij, l, i, j), c.get(B[p, q], l, i, j)))
            continue
        X, Y, out = [f for f in fits if f[2] is e.dc_lij][0]
        c.ensure('number', c.and_(c.shape_eq(X, (2 * n + 1,)), c.shape_eq(Y, (2 * n + 1,) + shape)))
        c.ensure('values of the steps', c.and_(*[c.eq(c.get(X, t), val[t]) for t in range(2 * n + 1)]))
        c.forall('spectra of the steps', list(shape),
                 lambda l, i, j: c.and_(*[c.eq(c.get(Y, t, l, i, j), c.get(C[(p, q), s], l, i, j)) for t, s in enumerate(ss)]))


FREE = {'h': (COSMO, True, 'SteM'), 'ns': (COSMO, False, 'SteM'), 'gamma': (COSMO, True, 'Analytic'), 'bgph0': (NUIS, True, 'Analytic'),
        'bgph1': (NUIS, True, 'SteM'), 'bgsp0': (NUIS, False, 'SteM'), 'wa': (COSMO, True, 'SteM')}


@contract('P21', [TR + '.PowerSpectrumTaskRunner.createJobDirStructure', TR + '.PowerSpectrumTaskRunner.createAndFillJobDir',
                  TR + '.AngularTaskRunner.createJobDirStructure', TR + '.AngularTaskRunner.createAndFillJobDir',
                  TR + '.DerivativeTaskRunner.createJobDirStructure', TR + '.DerivativeTaskRunner.createAndFillJobDir',
                  TR + '.TaskRunner.fillJobDir', TR + '.TaskRunner.writeJobShellScript', TR + '.TaskRunner.collectShellScripts',
                  WS + '.WorkSpace.collectPmmVariationParams', WS + '.WorkSpace.collectClVariationParams',
                  WS + '.WorkSpace.collectDerivativeParams', WS + '.WorkSpace.collectClVariationDirectories'], mode='bounded', trials=40,
          bound='7 parameters of every kind, 1 to 11 displacements on each side')
def job_directories(c):
    """one job for the fiducial and one for every step of every free parameter that is displaced (cosmological ones only for the power
    spectrum), one derivative job per free parameter; each job runs in its own directory with its own configuration, and the collected
    parameters and steps are exactly those"""
    n = c.choice('n', [1, 2, 7, 11])
    kind = c.choice('task', ['PowerSpectrum', 'Angular', 'Derivative'])
    names = list(FREE)
    random.Random(c.choice('order', list(range(5)))).shuffle(names)
    PP = c.target(PM + ':PhysicalParameter')
    ps = {}
    for x in names:
        k, free, how = FREE[x]
        ps[x] = PP(name=x, kind=k, probe=PH if k == NUIS else None, fiducial=1.0, current_value=1.0, is_free_parameter=free, derivative_method=how)
    pc = c.target(PM + ':PhysicalParametersCollection')(base_stem_disps=[0.01 * (k + 1) for k in range(n)], data_dict=ps)
    with run_dir(c.choice('listing', list(range(4)))) as d:
        (d / 'src').mkdir()
        f = d / 'src' / 'the_config.json'
        f.write_text('{"mark": 17, "boltzmann_codes_settings": {"camb": {"ini_filename": "camb_planck_2018.ini"}}}')
        ws = c.target(WS + ':WorkSpace')(d)
        t = c.target(TR + f':{kind}TaskRunner')(workspace=ws, args=ns(verbose=True, execution='no'), json_input=f, forecast_config=ns(phys_pars=pc))
        t.createJobDirStructure()
        moved = [x for x in FREE if FREE[x][1] and FREE[x][2] == 'SteM' and (kind != 'PowerSpectrum' or FREE[x][0] == COSMO)]
        want = {(x, s) for x in moved for s in steps_of(n)}
        if kind == 'Derivative':
            dirs = {ws.der_dir / x for x in FREE if FREE[x][1]}
            c.ensure('collected', ws.collectDerivativeParams() == {x for x in FREE if FREE[x][1]})
        else:
            out = ws.pmm_dir if kind == 'PowerSpectrum' else ws.cl_dir
            dirs = {step_dir(out, x, s) for x, s in want | {('central', 0)}}
            if kind == 'Angular':
                c.ensure('collected', ws.collectClVariationParams() == set(moved))
                c.ensure('collected directories', ws.collectClVariationDirectories() == {(x, s): step_dir(out, x, s) for x, s in want})
            else:
                c.ensure('collected', ws.collectPmmVariationParams() == set(moved) | {'central'})
        c.ensure('directories', {x for x in t.outdir.iterdir()} == dirs)
        scripts = list(t.shell_scripts_paths)
        c.ensure('one script per job', len(scripts) == len(dirs) and {Path(s).parent for s in scripts} == dirs)
        for s in scripts:
            text, job = Path(s).read_text(), Path(s).parent
            run = [x for x in text.splitlines() if x.startswith(t.main_script_name)]
            c.ensure('runs once in its directory', len(run) == 1 and f'cd {job}' in text.splitlines())
            w = run[0].split()
            opts = dict(zip(w[1::2], w[2::2]))
            c.ensure('arguments', opts['--workdir'] == str(job) and opts['--rundir'] == str(d) and opts['--main_config'] == 'the_config.json')
            c.ensure('executable', Path(s).stat().st_mode & 0o100)
            import json
            c.ensure('configuration', json.loads((job / 'the_config.json').read_text())['mark'] == 17)
            c.ensure('reference parameters of the code', kind != 'PowerSpectrum' or (job / 'camb_planck_2018.ini').is_file())
        t.collectShellScripts()
        c.ensure('scripts found again', sorted(map(str, t.shell_scripts_paths)) == sorted(map(str, scripts)))


BIN = 'bin__compute_cls'


def script_run(c, d, x, s):
    """a stand-in workspace and parameters for a job script"""
    w = step_dir(d, x, s)
    w.mkdir(parents=True)
    return w


@contract('P21', ['bin/compute_cls.main', CC + '.load_cosmology'], weight=2)
def spectra_job(c):
    """the job in the directory of a step computes spectra with the parameter displaced to that step and the cosmology of the step
    against the fiducial one, and leaves them in its directory with the parameters used"""
    n = 2
    pc, b, fs, ks = collection(c, n)
    x = c.choice('parameter', ['h', 'bgph1', 'central'])
    s = c.choice('step', steps_of(n)) if x != 'central' else 0
    with run_dir(0) as d:
        w = script_run(c, d / 'Angular', x, s)
        fcfg, dens = ns(present_probes=[WL, PH]), object()
        acts = []
        ws = c.target(WS + ':WorkSpace')(d)
        ws.getParamsCollection, ws.getForecastConfiguration = lambda: pc, lambda: fcfg
        pc.writeJSON = lambda f: acts.append(('params', Path(f), {p: pc[p].current_value for p in pc}))
        c.stub(BIN + ':WorkSpace', lambda r: (c.ensure('run directory', Path(r) == d), ws)[1])
        c.stub(BIN + ':mcfg.AngularConfig', lambda json_input: ('cfg', Path(json_input)))
        c.stub(BIN + ':gu.configure_logger', lambda *a, **k: None)
        c.stub(BIN + ':redshift_density.load_densities_from_file', lambda f: (c.ensure('densities of the run', f == ws.niz_file), dens)[1])
        c.stub(CC + ':Cosmology.fromHDF5', lambda f: ns(file=Path(f), params=pc.cosmological_parameters))

        def compute(cosmology, phys_pars, densities, forecast_config, angular_config, fiducial_cosmology=None, **kw):
            c.ensure('inputs', phys_pars is pc and densities is dens and forecast_config is fcfg and angular_config == ('cfg', w / 'a.json'))
            acts.append(('cls', cosmology.file, fiducial_cosmology.file, {p: pc[p].current_value for p in pc}))
            return ns(saveToHDF5=lambda f: acts.append(('saved', Path(f))))
        c.stub(BIN + ':cl_core.compute_cls', compute)
        c.target(BIN + ':main')({'rundir': d, 'workdir': w, 'logfile': None, 'main_config': 'a.json'})
        own = x == 'h'
        cls = [a for a in acts if a[0] == 'cls']
        c.ensure('computed once', len(cls) == 1)
        c.ensure('cosmology of the step', cls[0][1] == step_dir(d / 'PowerSpectrum', x if own else 'central', s if own else 0) / 'p_mm.h5')
        c.ensure('fiducial cosmology', cls[0][2] == step_dir(d / 'PowerSpectrum', 'central', 0) / 'p_mm.h5')
        c.ensure('saved once', len([a for a in acts if a[0] == 'saved']) == 1)
        out = [a for a in acts if a[0] == 'saved'][0][1]
        c.ensure('saved where spectra are looked for', out.parent == w and out.match('cl*.h5'))
        rec = [a for a in acts if a[0] == 'params']
        c.ensure('parameters recorded', len(rec) == 1 and rec[0][1] == w / 'params.json')
        for now in (cls[0][3], rec[0][2]):
            for p in pc:
                c.ensure('values at the step', c.eq(now[p], value(c, b, fs[p], ks[p], s) if p == x else fs[p]))


@contract('P21', ['bin/compute_pmm.main'], weight=2)
def power_spectrum_job(c):
    """the job in the directory of a step computes, on the configured redshifts, the power spectrum with the parameter displaced to that
    step, then everything read from it, and leaves it where it is looked for"""
    B = 'bin__compute_pmm'
    n = 2
    pc, b, fs, ks = collection(c, n)
    x = c.choice('parameter', ['h', 'wa', 'central'])
    s = c.choice('step', steps_of(n)) if x != 'central' else 0
    with run_dir(0) as d:
        w = script_run(c, d / 'PowerSpectrum', x, s)
        acts = []
        cfg = ns(z_grid=object())
        c.stub(B + ':gu.configure_logger', lambda *a, **k: None)
        c.stub(B + ':fsu.get_params_file_from_rundir', lambda r: ('params of', Path(r)))
        c.stub(B + ':PhysicalParametersCollection.fromJSON', lambda f: (c.ensure('parameters of the run', f == ('params of', d)), pc)[1])
        c.stub(B + ':mcfg.PowerSpectrumConfig', lambda json_input: (c.ensure('configuration of the job', Path(json_input) == w / 'p.json'), cfg)[1])

        class Cosmo:
            def __init__(self, params=None, flat=None, z_grid=None, **kw):
                acts.append(('made', {p: params[p].current_value for p in params}))
                c.ensure('flatness and redshifts', flat is pc.is_universe_flat and z_grid is cfg.z_grid)

            def evaluatePowerSpectrum(self, workdir, power_spectrum_config):
                c.ensure('power spectrum of the job', Path(workdir) == w and power_spectrum_config is cfg)
                acts.append(('power', {p: pc[p].current_value for p in pc}))

            def evaluateOverRedshiftGrid(self):
                acts.append(('grid',))

            def saveToHDF5(self, f):
                acts.append(('saved', Path(f)))
        c.stub(B + ':Cosmology', Cosmo)
        c.target(B + ':main')({'rundir': d, 'workdir': w, 'logfile': None, 'main_config': 'p.json'})
        c.ensure('in order', [a[0] for a in acts] == ['made', 'power', 'grid', 'saved'])
        c.ensure('saved where it is looked for', acts[-1][1] == c.target(WS + ':WorkSpace')(d).getPowerSpectrumFile(x, s))
        for now in (acts[0][1], acts[1][1]):
            for p in now:
                c.ensure('values at the step', c.eq(now[p], value(c, b, fs[p], ks[p], s) if p == x else fs[p]))
        c.ensure('cosmological parameters', set(acts[0][1]) == {'h', 'wa'})


@contract('P21', ['bin/compute_derivatives.main'], weight=1)
def derivative_job(c):
    """the job in the directory of a parameter computes the derivatives by that parameter from the spectra of the run and leaves them
    where they are looked for"""
    B = 'bin__compute_derivatives'
    x = c.choice('parameter', ['h', 'bgph1', 'bgph11'])
    alone = c.choice('standalone', [False, True])
    acts = []
    with run_dir(0) as d:
        w = d / 'Derivative' / x
        w.mkdir(parents=True)
        c.stub(B + ':gu.configure_logger', lambda *a, **k: None)
        c.stub(WS + ':WorkSpace.getForecastConfiguration', lambda self, **k: ns(present_probes=[WL, PH]))
        c.stub(B + ':fcfg.ForecastConfig', lambda **k: ns(present_probes=[WL, PH], loadPhysicalParametersFromJSONConfig=lambda: None))

        class Coll:
            def __init__(self, dvar, workspace):
                acts.append(('made', dvar, workspace.run_dir))

            def setUp(self):
                acts.append(('setup',))

            def evaluateDerivatives(self):
                acts.append(('derived',))

            def writeToFile(self, f):
                acts.append(('saved', Path(f)))
                Path(f).write_text('')
        c.stub(B + ':ders.ClDerivativeCollector', Coll)
        args = {'rundir': d, 'workdir': w, 'logfile': None, 'main_config': 'd.json'}
        if alone:
            args.update(standalone=True, dvar=x, angular_dir=d / 'Angular', forecast_config=d / 'f.json', input_data_dir=d)
        c.target(B + ':main')(args)
        c.ensure('in order', [a[0] for a in acts] == ['made', 'setup', 'derived', 'saved'])
        c.ensure('parameter and run', acts[0][1:] == ('h' if x == 'h' else x, d))
        c.ensure('found again', c.target(WS + ':WorkSpace')(d).getClDerivativeFile(x) == acts[-1][1])


@contract('P21', [CC + '.compute_cls'], weight=1)
def spectra_computation(c):
    """the spectra use the given cosmologies, parameters, densities and configurations; a power spectrum that is to be computed is
    computed before anything read from it"""
    power, fidu = c.choice('compute the power spectrum', [False, True]), c.choice('fiducial given', [False, True])
    acts = []

    def cosmo(name):
        return ns(evaluateOverRedshiftGrid=lambda: acts.append((name, 'grid')),
                  evaluatePowerSpectrum=lambda workdir, power_spectrum_config: acts.append((name, 'power', power_spectrum_config)))
    k, f = cosmo('cosmology'), cosmo('fiducial') if fidu else None
    pp, dens, fcfg, acfg = object(), object(), object(), object()

    class Coll:
        def __init__(self, phys_params, cosmology, forecast_config, angular_config, fiducial_cosmology=None):
            c.ensure('inputs', phys_params is pp and cosmology is k and forecast_config is fcfg and angular_config is acfg and fiducial_cosmology is f)

        def setUp(self, densities):
            c.ensure('densities', densities is dens)
            acts.append(('spectra', 'setup'))

        def evaluateAngularCoefficients(self):
            acts.append(('spectra', 'evaluated'))
    c.stub(CC + ':AngularCoefficientsCollector', Coll)
    r = c.target(CC + ':compute_cls')(k, pp, dens, fcfg, acfg, pmm_cfg='cfg', fiducial_cosmology=f, compute_pmm=power)
    c.ensure('result', isinstance(r, Coll))
    c.ensure('of the cosmology', [a[1:] for a in acts if a[0] == 'cosmology'] == ([('power', 'cfg')] if power else []) + [('grid',)])
    c.ensure('of the fiducial', [a[1:] for a in acts if a[0] == 'fiducial'] == ([('grid',)] if fidu else []))
    c.ensure('evaluated last', [a[0] for a in acts[-2:]] == ['spectra', 'spectra'] and acts[-1][1] == 'evaluated')


@contract('P21', [CC + '.compute_densities'], weight=1)
def densities_of_the_probes(c):
    """the densities of every probe come from its own file, evaluated on the given grid"""
    probes = c.choice('probes', [[PH], [WL, PH], [WL, PH, SP]])
    z = object()
    made = {}

    def load(f):
        acts = []
        d = ns(setUp=lambda: acts.append('setup'), evaluate=lambda g: acts.append(('grid', g)), evaluateSurfaceDensity=lambda: acts.append('surface'))
        made[f] = d, acts
        return d
    c.stub(CC + ':RedshiftDensity.fromHDF5', load)
    r = c.target(CC + ':compute_densities')({p: ns(density_init_file='file of ' + p) for p in probes}, z)
    c.ensure('probes', sorted(r) == sorted(probes))
    for p in probes:
        d, acts = made['file of ' + p]
        c.ensure('own file', r[p] is d)
        c.ensure('evaluated', acts == ['setup', ('grid', z), 'surface'])


@contract('P21', [CC + '.compute_delta_cls', FC + '.prepare_inputs'], weight=1)
def errors_of_the_run(c):
    """the spectra errors use the forecast of the run or the one given, and a shot noise file when there is one (given before configured)"""
    import os
    configured, given = c.choice('configured', [None, 'noise.h5']), c.choice('given', [None, 'other.h5'])
    own = c.choice('other forecast', [False, True])
    fcfg, other = ns(shot_noise_file=configured, survey_f_sky=object()), ns(shot_noise_file=given, survey_f_sky=object())
    acts = []

    class Delta:
        def __init__(self, fcfg=None, fisher_cfg=None):
            acts.append(('made', fcfg, fisher_cfg))

        @classmethod
        def fromHDF5(cls, f):
            acts.append(('loaded', f))
            return cls.__new__(cls)

        def __getattr__(self, name):
            return lambda *a, **k: acts.append((name, *a, *k.values()))
    c.stub(CC + ':DeltaClCollection', Delta)
    c.stub(FC + ':DeltaClCollection', Delta)
    c.stub(FC + ':ClDerivativeCollector.fromHDF5', lambda f, **k: ('derivatives', f))
    ws = ns(getTaskJSONConfiguration=lambda t: ('cfg', t), getForecastConfiguration=lambda: fcfg, delta_cls_file='delta.h5',
            getClDerivativeFile=lambda x: 'file of ' + x, collectDerivativeParams=lambda: {'h', 'bgph1', 'wa'})
    use = other if own else fcfg
    c.target(CC + ':compute_delta_cls')(ws, *([other] if own else []))
    c.ensure('forecast', acts[0] == ('made', use, ('cfg', 'Fisher')))
    names = [a[0] for a in acts]
    c.ensure('noise file', [a for a in acts if a[0] == 'loadShotNoiseFromFile'] == ([('loadShotNoiseFromFile', use.shot_noise_file)] if use.shot_noise_file else []))
    order = ['loadInpuDataFromWorkspace'] + (['loadShotNoiseFromFile'] if use.shot_noise_file else []) + ['evaluateSingleBlocks', 'buildXCBlocks']
    c.ensure('in order', [x for x in names if x in order] == order and ('loadInpuDataFromWorkspace', ws) in acts)
    del acts[:]
    delta, ders = c.target(FC + ':prepare_inputs')(ws, shot_noise_file=given)
    c.ensure('derivatives of every parameter', ders == {x: ('derivatives', 'file of ' + x) for x in ('h', 'bgph1', 'wa')})
    noise = given if given is not None else configured
    c.ensure('errors of the run', acts[0] == ('loaded', 'delta.h5') and isinstance(delta, Delta))
    c.ensure('recomputed with the noise', acts[1:] == ([('loadShotNoiseFromFile', noise), ('evaluateSingleBlocks', fcfg.survey_f_sky)] if noise else []))


@contract('P21', [FC + '.compute_fisher_matrix', FC + '.compute_and_save_fishers'], weight=2)
def fisher_of_the_vector(c):
    """the auto-correlation Fisher matrices per multipole are kept under their own tracer and all handed to every other combination;
    a combination is refused while some are missing; the result has the name and parameters of its data vector and is saved as it"""
    pd = c.np() and __import__('pandas')
    vec = c.choice('vector', ['phph', 'wlwl', 'spsp', 'wlph', 'wlwl_phph', 'wlwl_phph_wlph', 'phsp'])
    present = c.choice('stored before', [[], ['wl'], ['ph', 'wl', 'sp'], ['sp', 'ph', 'wl', 'ph']])
    L = {'ph': PH, 'wl': WL, 'sp': SP}
    store = {}
    f_df, fl_df = object(), {}
    got = []

    class Hdf:
        def __init__(self, file, mode='a', **k):
            c.ensure('file of the run', file == 'auto.h5')
            self.mode = mode

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __iter__(self):
            return iter(['/' + k for k in store])

        def get(self, key):
            return store[key.strip('/')]
    Hdf.keys = lambda self: list(self)
    Hdf.__getitem__ = lambda self, k: self.get(k)
    for p in present:
        store[L[p]] = 'per multipole of ' + L[p]
    before = dict(store)

    class FL:
        def to_hdf(self, hdf, key):
            c.ensure('stored for writing', hdf.mode != 'r')
            store[key.strip('/')] = self
    fl = FL()
    c.stub(FC + ':pd.HDFStore', Hdf)
    pp, delta, ders, ws = object(), object(), object(), ns(auto_f_ells_file='auto.h5')

    class Ev:
        free_cosmological_parameters, free_nuisance_parameters = {'h': 1}, {'b': 2}

        def __init__(self, v):
            self.data_vector = c.target('seyfert.fisher.datavector:ClDataVector')(v)

        def computeFisherMatrix(self, phys_pars, delta_cls, dcoll_dvar_dict, return_f_ell=False, auto_f_ells=None):
            c.ensure('inputs', phys_pars is pp and delta_cls is delta and dcoll_dvar_dict is ders)
            got.append(dict(auto_f_ells) if auto_f_ells is not None else None)
            return (f_df, fl) if return_f_ell else f_df
    c.stub(FC + ':FisherEvaluator', Ev)
    saved = []

    class F:
        @staticmethod
        def from_dataframe(df, name, cosmological_parameters, nuisance_parameters):
            c.ensure('the computed matrix', df is f_df)
            c.ensure('its parameters', cosmological_parameters == {'h': 1} and nuisance_parameters == {'b': 2})
            return ns(name=name, writeToFile=lambda outfile: saved.append((name, outfile)))
    c.stub(FC + ':FisherMatrix', F)
    DV = c.target('seyfert.fisher.datavector:ClDataVector')
    v = DV.fromBriefString(vec)
    auto = vec in ('phph', 'wlwl', 'spsp')
    run = lambda: c.target(FC + ':compute_fisher_matrix')(v, ws, pp, delta, ders)
    if not auto and len(before) < 3:
        c.raises('refused', Exception, run)
        c.ensure('nothing stored', store == before)
        return
    r = run()
    c.ensure('name', r.name == v.name)
    if auto:
        key = [k for k in store if store[k] is fl]
        c.ensure('kept once', len(key) == 1 and {k: x for k, x in store.items() if k not in key} == {k: x for k, x in before.items() if k not in key})
        for o in ['phph_wlwl_phwl', 'spsp_wlwl', 'phph_spsp']:
            c.ensure('kept under the name its combinations ask for', (key[0] in DV.fromBriefString(o).getInvolvedAutoCorrelationProbes()) == (vec in o))
    else:
        c.ensure('unchanged', store == before)
        c.ensure('all auto-correlations handed over', got == [before])
    out = c.choice('existing', [[], [vec], ['spsp']])
    n = len(got)

    class Dir:
        def __truediv__(self, name):
            return ns(name=name, exists=lambda: name in [f'fisher_{x}.hdf5' for x in out])
    rs = c.target(FC + ':compute_and_save_fishers')([vec], Dir(), ws, pp, delta, ders)
    if vec in out:
        c.ensure('existing ones are kept', len(rs) == 0 and saved == [] and len(got) == n)
    else:
        c.ensure('saved once as the vector', len(rs) == 1 and len(saved) == 1 and saved[0][0] == v.name and saved[0][1].name == f'fisher_{vec}.hdf5')
