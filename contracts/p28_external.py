"""Data made elsewhere or by older versions: what is read is what the file says, in the units and order of the code."""
import json
import random
import shutil
from pathlib import Path
from types import SimpleNamespace
from pyver.api import contract
from contracts.p25_runs import scratch, attempt

ns = SimpleNamespace
EI, RC, IC, FM, RL = 'seyfert.file_io.ext_input', 'seyfert.file_io.retro_comp', 'seyfert.utils.ist_comparison', 'seyfert.fisher.fisher_matrix', 'seyfert.utils.run_loader'
R = EI + '.ISTInputReader.'
PH, SP, WL, VD = 'PhotometricGalaxy', 'SpectroscopicGalaxy', 'Lensing', 'Void'
EPS = {'6p3E-3': 0.00625, '1p3E-2': 0.01250, '1p9E-2': 0.01875, '2p5E-2': 0.02500, '3p8E-2': 0.03750, '5p0E-2': 0.05000, '1p0E-1': 0.10000}
NAMES = {'Ob': 'Omb', 'Ode': 'OmDE', 'Om': 'Omm', 'h': 'h', 'ns': 'ns', 's8': 'sigma8', 'w0': 'w0', 'wa': 'wa'}
FID = {'Omb': 0.05, 'OmDE': 0.68, 'Omm': 0.32, 'h': 0.67, 'ns': 0.96, 'sigma8': 0.8, 'w0': -1.0, 'wa': 0.0}


def reader(c, extra=()):
    pc = c.target('seyfert.cosmology.parameter:PhysicalParametersCollection')()
    P = c.target('seyfert.cosmology.parameter:PhysicalParameter')
    for n, f in FID.items():
        pc[n] = P(name=n, fiducial=f, kind=P.COSMO_PAR_STRING, is_free_parameter=True, current_value=f)
    for n in extra:
        pc[n] = P(name=n, fiducial=0.3, kind=P.COSMO_PAR_STRING, is_free_parameter=True, current_value=0.3)
    return c.target(EI + ':ISTInputReader')(pc), pc


def header(n, m, symmetric, base, sep):
    ij = [(i, j) for i in range(n) for j in range(m) if not symmetric or j >= i]
    return ij, '# ell ' + ' '.join(f'{i + base}{sep}{j + base}' for i, j in ij)


@contract('P28', [R + 'readSCameraClFile', R + 'getIndicesFromSCameraClFileHeader'], weight=1)
def columns_of_spectra(c):
    """each column of a file of spectra goes to the pair of bins its header names, to both orders when the file has one of them, and the
    first index is that of the more numerous bins"""
    n, m, symmetric = c.choice('bins', [(1, 1, True), (3, 3, True), (2, 2, False), (2, 3, False), (3, 2, False)])
    base, sep = c.choice('base', [0, 1]), c.choice('separator', ['-', ',', '_'])
    ij, hdr = header(n, m, symmetric, base, sep)
    if c.choice('order', [0, 1]):
        ij, hdr = ij[::-1], '# ell ' + ' '.join(f'{i + base}{sep}{j + base}' for i, j in ij[::-1])
    L = c.int('multipoles', 1, conc=(1, 5))
    A = c.array('file', (L, len(ij) + 1))
    with scratch() as d:
        f = d / 'cl.dat'
        f.write_text('\n' + hdr + '\n')
        c.stub(EI + ':np.loadtxt', lambda file, *a, **k: A)
        r, _ = reader(c)
        ells, C = r.readSCameraClFile(c.choice('given', [f, str(f)]), symmetric=symmetric)
    turn = n < m
    N, M = (m, n) if turn else (n, m)
    c.ensure('shape', c.and_(c.shape_eq(ells, (L,)), c.shape_eq(C, (L, N, M))))
    c.forall('multipoles', [L], lambda l: c.eq(c.get(ells, l), c.get(A, l, 0)))
    col = {p: k + 1 for k, p in enumerate(ij)}
    for i in range(n):
        for j in range(m):
            k = col.get((i, j), col.get((j, i)))
            c.forall(f'pair {i},{j}', [L], lambda l: c.eq(c.get(C, l, *((j, i) if turn else (i, j))), c.get(A, l, k)))


@contract('P28', [R + 'readSCameraClFile', R + 'getIndicesFromSCameraClFileHeader'], mode='bounded', trials=60, bound='two to twelve bins, up to four multipoles')
def files_of_spectra(c):
    """spectra written as text are read back as they were written, with bins above nine; an asymmetric file is refused as symmetric"""
    n, m = c.int('n', 2, 12), c.int('m', 2, 12)
    symmetric = c.choice('symmetric', [True, False])
    if symmetric:
        m = n
    ij, hdr = header(n, m, symmetric, c.choice('base', [0, 1]), c.choice('separator', ['-', ',']))
    A = c.array('file', (c.int('multipoles', 1, 4), len(ij) + 1))
    with scratch() as d:
        f = d / 'cl.dat'
        f.write_text(hdr + '\n' + '\n'.join(' '.join(map(repr, row)) for row in A.tolist()) + '\n')
        r, _ = reader(c)
        ells, C = r.readSCameraClFile(f, symmetric=symmetric)
        c.ensure('values', ells.tolist() == A[:, 0].tolist() and all((C[:, j, i] if n < m else C[:, i, j]).tolist() == A[:, k + 1].tolist() for k, (i, j) in enumerate(ij)))
        c.ensure('shape', C.shape == (len(A), max(n, m), min(n, m)) and (not symmetric or bool((C == C.transpose(0, 2, 1)).all())))
        if n != m:
            c.raises('refused', Exception, lambda: r.readSCameraClFile(f, symmetric=True))


@contract('P28', [R + 'parseISTCosmoString', R + '__init__'], weight=1)
def steps_of_files(c):
    """the name of a file tells the parameter and the step of the displacement it was computed with; the others are the fiducial one"""
    x, e, s = c.choice('parameter', list(NAMES)), c.choice('displacement', list(EPS)), c.choice('sign', ['mn', 'pl'])
    r, pc = reader(c)
    got = r.parseISTCosmoString(c.choice('file', ['pkz-{}_{}_eps_{}.txt', 'CijGG-{}_{}_eps_{}-N1.dat']).format(x, s, e))
    c.ensure('parameter', got[0] == NAMES[x])
    c.ensure('displacement', abs(float(pc.stem_dict[got[1]]) - (EPS[e] if s == 'pl' else -EPS[e])) < 1e-12)
    c.ensure('fiducial', r.parseISTCosmoString('pkz-Fiducial.txt') == ('central', 0))


@contract('P28', [R + 'readISTPowerSpectrumTextFile', R + 'convertISTPowerSpectra', R + 'checkISTParams'], mode='bounded', trials=25, bound='up to four redshifts, five wavenumbers and four displaced files')
def power_spectra_converted(c):
    """each file of power spectra, in units of h, is written once in Mpc with the Hubble constant it was computed for, at its own parameter
    and step, redshifts in increasing order without zero"""
    import h5py
    import numpy as np
    nz, nk = c.int('redshifts', 2, 4), c.int('wavenumbers', 2, 5)
    z = np.sort(np.round(np.random.RandomState(c.int('seed', 0, 999)).uniform(0.1, 3, nz), 3))
    if c.choice('zero', [True, False]):
        z[0] = 0
    k = np.cumsum(c.array('k', (nk,), positive=True))
    which = {('central', 0): 'pkz-Fiducial.txt'}
    r, pc = reader(c, extra=c.choice('extra', [(), ('mnu',), ('mnu', 'gamma')]))
    r.checkISTParams()
    c.ensure('parameters of the files', set(pc) == set(FID))
    for x in c.choice('displaced', [['h'], ['Om', 'h'], ['w0', 's8', 'Ob']]):
        e, s = c.choice('displacement ' + x, list(EPS)), c.choice('sign ' + x, ['mn', 'pl'])
        st = next(t for t, v in pc.stem_dict.items() if abs(v - (EPS[e] if s == 'pl' else -EPS[e])) < 1e-12)
        which[(NAMES[x], int(st))] = f'{x}/pkz-{x}_{s}_eps_{e}.txt'
    P = {w: (c.array(f'lin {w}', (nz, nk), positive=True), c.array(f'nonlin {w}', (nz, nk), positive=True)) for w in which}
    with scratch() as d:
        src = d / 'src'
        src.mkdir()
        for w, f in which.items():
            (src / f).parent.mkdir(exist_ok=True)
            (src / f).write_text('\n'.join(f'{z[i]!r} {k[j]!r} {P[w][0][i, j]!r} {P[w][1][i, j]!r}' for i in reversed(range(nz)) for j in range(nk)))
        zz, kk, a, b = r.readISTPowerSpectrumTextFile(src / which[('central', 0)])
        c.ensure('file', np.allclose(zz, z, 1e-12) and np.allclose(kk, k, 1e-12) and np.allclose(a, P[('central', 0)][0], 1e-12) and np.allclose(b, P[('central', 0)][1], 1e-12))
        r.convertISTPowerSpectra(src, d / 'out', flat=False, cosmo_model='CPL')
        out = [p for p in d.iterdir() if p.name.startswith('out')]
        c.ensure('one directory', len(out) == 1)
        dirs = {p.name: p for p in out[0].iterdir()}
        name = c.target('seyfert.utils.filesystem_utils:get_cosmology_jobdir_name')
        c.ensure('one per file', set(dirs) == {name(*w) for w in which})
        for w in which:
            cosmo = c.target('seyfert.cosmology.cosmology:Cosmology').fromHDF5(dirs[name(*w)] / 'p_mm.h5')
            h = FID['h'] * (1 + float(pc.stem_dict[w[1]])) if w[0] == 'h' else FID['h']
            pmm, m = cosmo.power_spectrum, z > 0
            c.ensure('grids', np.allclose(pmm.k_grid, k * h, 1e-10) and np.allclose(pmm.z_grid, z[m], 1e-12) and np.allclose(cosmo.z_grid, z[m], 1e-12))
            c.ensure('spectra', np.allclose(pmm.lin_p_mm_z_k, P[w][0][m] / h ** 3, 1e-10) and np.allclose(pmm.nonlin_p_mm_z_k, P[w][1][m] / h ** 3, 1e-10))
            for n in FID:
                want = FID[n] if n != w[0] else float(pc.stem_dict[w[1]]) if FID[n] == 0 else FID[n] * (1 + float(pc.stem_dict[w[1]]))
                c.ensure('parameters', abs(cosmo.params[n].current_value - want) < 1e-12)
        c.ensure('restored', all(pc[n].current_value == FID[n] for n in FID))


@contract('P28', [R + 'buildCosmoClsFilesDict', R + 'readSCameraClDerivatives'], mode='bounded', trials=40, bound='up to four steps and three parameters')
def files_of_a_directory(c):
    """files of the same parameter and step are put together, one per pair of tracers, and missing ones are noticed; derivatives are those
    of the parameter in their name, by pair of tracers"""
    import numpy as np
    steps = c.choice('steps', [[('Om', 'mn', '1p0E-1')], [('h', 'pl', '6p3E-3'), ('h', 'mn', '6p3E-3'), ('w0', 'pl', '5p0E-2')]])
    miss = c.choice('missing', [None, ('GCph', 0), ('GCsp', 0), ('XC', 0)])
    r, pc = reader(c)
    with scratch() as d:
        want = {}
        for p in ('GCph', 'GCsp', 'XC'):
            (d / p).mkdir()
            for n in range(len(steps) + 1):
                if miss == (p, n):
                    continue
                f = d / p / ('Cij-{}_{}_eps_{}.dat'.format(*steps[n]) if n < len(steps) else 'Cij-N.dat')
                f.write_text('')
                key = ('central', 0) if n == len(steps) else r.parseISTCosmoString(f.name)
                want.setdefault(key, {})[p] = f
        if miss is not None:
            c.raises('noticed', AssertionError, lambda: r.buildCosmoClsFilesDict(d))
        else:
            got = r.buildCosmoClsFilesDict(d)
            c.ensure('files', got == want and len(got) == len(steps) + 1)
    pars = c.choice('parameters', [['h'], ['Ob', 'w0', 's8']])
    kinds = {'GCph': (2, 2), 'GCsp': (3, 3), 'XC': (3, 2)}
    with scratch() as d:
        data = {}
        for p, (n, m) in kinds.items():
            (d / p).mkdir()
            ij, hdr = header(n, m, p != 'XC', 1, '-')
            for x in pars:
                A = c.array(f'{p} {x}', (2, len(ij) + 1))
                (d / p / f'dCijGGd{x}-fid-{x}-Stef.dat').write_text(hdr + '\n' + '\n'.join(' '.join(map(repr, row)) for row in A.tolist()) + '\n')
                data[(NAMES[x], p)] = (A, ij)
        got = r.readSCameraClDerivatives(c.choice('given', [d, str(d)]))
        key = {'GCph': f'{PH}_{PH}', 'GCsp': f'{SP}_{SP}', 'XC': f'{PH}_{SP}'}
        c.ensure('all', set(got) == {NAMES[x] for x in pars} and all(set(v) == set(key.values()) for v in got.values()))
        for (x, p), (A, ij) in data.items():
            for k, (i, j) in enumerate(ij):
                c.ensure('values', got[x][key[p]][:, i, j].tolist() == A[:, k + 1].tolist() and (p == 'XC' or got[x][key[p]][:, j, i].tolist() == A[:, k + 1].tolist()))


COLS = [['Omegam', 'Omegab', 'w0', 'wa', 'h', 'ns', 'sigma8'], ['Omegam', 'Omegade', 'h', 'b1', 'b2', 'b10', 'b11'], ['h', 'aIA', 'b3', 'Omegab'], ['ns']]
OURS = {'Omegam': 'Omm', 'Omegab': 'Omb', 'Omegade': 'OmDE', 'b1': 'bgph0', 'b2': 'bgph1', 'b3': 'bgph2', 'b10': 'bgph9', 'b11': 'bgph10'}


@contract('P28', [R + 'readISTFisherMatrixFile', FM + '.FisherMatrix.from_ISTfile'], weight=2)
def external_matrices(c):
    """every entry of an external Fisher matrix belongs to the same two parameters under the names of the code; the matrix has the name of the
    probes of its file, or the one given"""
    cols = c.choice('columns', COLS)
    v = {(a, b): c.real(f'F_{a}_{b}') for a in cols for b in cols}
    pd = c.target(EI + ':pd')
    c.stub(EI + ':pd.read_table', lambda file, *a, **k: pd.DataFrame([[v[(a_, b_)] for b_ in cols] for a_ in cols], columns=list(cols)))
    kind, name = c.choice('file', [('WL', '[WL]'), ('GCph', '[GCph]'), ('GCsp', '[GCsp(Pk)]'), ('GCph_WL_XC', '[WL+GCph+XC(WL,GCph)]'), ('GCsp_GCph_WL_XC', '[WL+GCph+XC(WL,GCph)] + [GCsp(Pk)]')])
    f = Path(f'/a/EuclidISTF_{kind}_w0wa_flat_{c.choice("scenario", ["optimistic", "pessimistic"])}.txt')
    ours = [OURS.get(x, x) for x in cols]
    n, df = c.target(EI + ':ISTInputReader')().readISTFisherMatrixFile(f)
    c.ensure('name', n == name)
    given = c.choice('given', [None, 'mine'])
    nuis = [x for x in ours if x.startswith('b')] if c.choice('parameters', [True, False]) else None
    cosmo = [x for x in ours if not x.startswith('b')] if nuis is not None else None
    m = c.target(FM + ':FisherMatrix').from_ISTfile(f, name=given, cosmological_parameters=None if cosmo is None else set(cosmo), nuisance_parameters=None if nuis is None else set(nuis))
    c.ensure('matrix', m.name == (given or name) and set(m.cosmological_parameters) == set(ours if cosmo is None else cosmo) and set(m.nuisance_parameters) == set(nuis or []))
    for x in (df, m.matrix):
        c.ensure('parameters', sorted(x.index) == sorted(ours) and list(x.index) == list(x.columns))
        for a in cols:
            for b in cols:
                c.ensure('entries', c.eq(x.loc[OURS.get(a, a), OURS.get(b, b)], v[(a, b)]))


@contract('P28', [FM + '.FisherMatrix.from_ISTfile', R + 'readISTFisherMatrixFile'], mode='bounded', trials=20, bound='the files of the code and written ones of up to seven parameters')
def external_matrices_in_files(c):
    """a Fisher matrix written as a table of text is read as it is written"""
    cols = c.choice('columns', COLS)
    A = c.array('F', (len(cols), len(cols)), symmetric=True)
    with scratch() as d:
        f = d / 'EuclidISTF_GCph_WL_XC_w0wa_flat_optimistic.txt'
        f.write_text(' '.join(cols) + '\n' + '\n'.join(' '.join(map(repr, row)) for row in A.tolist()) + '\n')
        m = c.target(FM + ':FisherMatrix').from_ISTfile(f)
        c.ensure('name', m.name == '[WL+GCph+XC(WL,GCph)]')
        c.ensure('entries', all(abs(m.matrix.loc[OURS.get(a, a), OURS.get(b, b)] - A[i, j]) < 1e-12 for i, a in enumerate(cols) for j, b in enumerate(cols)))
    s = c.choice('scenario', ['optimistic', 'pessimistic'])
    m = c.target(FM + ':FisherMatrix').from_ISTfile(c.target('seyfert.utils.filesystem_utils:get_ist_gcsp_pk_fisher_file')(s))
    c.ensure('of the code', m.name == '[GCsp(Pk)]' and set(m.cosmological_parameters) == {'Omm', 'Omb', 'w0', 'wa', 'h', 'ns', 'sigma8'} and not m.nuisance_parameters)


@contract('P28', [IC + '.read_ISTGCphFishers'], mode='bounded', trials=40, bound='up to three codes, both curvatures and scenarios')
def matrices_of_codes(c):
    """the matrices of the codes compared are those of the curvature and scenario asked for, each under the name of its code"""
    import numpy as np
    codes = {'AA': 'one', 'BB': 'two', 'CC': 'three'}
    flat, sc = c.choice('flat', [True, False]), c.choice('scenario', ['optimistic', 'pessimistic'])
    vals, f = {}, c.target(IC + ':read_ISTGCphFishers')
    with scratch() as d:
        (d / 'legend.json').write_text(json.dumps(codes))
        for cd in ('Flat', 'NonFlat'):
            for s in ('optimistic', 'pessimistic'):
                (d / cd / s).mkdir(parents=True)
                for k in list(codes)[:c.choice('codes', [1, 2, 3])]:
                    vals[(cd, s, k)] = x = random.Random(f'{cd}{s}{k}').random()
                    (d / cd / s / f'fisher_matrices_results_baseline_GR_{k}-x.txt').write_text(f'h ns\n{x!r} 0.5\n0.5 {x + 1!r}\n')
        got = f(c.choice('given', [d, str(d)]), flat, sc)
        want = {k: x for (cd, s, k), x in vals.items() if (cd == 'Flat') == flat and s == sc}
        c.ensure('codes', set(got) == {codes[k] for k in want})
        c.ensure('values', all(abs(got[codes[k]].loc['h', 'h'] - x) < 1e-12 and abs(got[codes[k]].loc['ns', 'ns'] - x - 1) < 1e-12 for k, x in want.items()))
        for bad in ((5, flat, sc), (d, 'yes', sc), (d, flat, 'other'), (d / 'nothing', flat, sc)):
            c.ensure('refused', attempt(lambda: f(*bad), (TypeError, ValueError, FileNotFoundError)) is not None)
        (d / ('Flat' if flat else 'NonFlat') / sc / 'fisher_matrices_results_baseline_GR_ZZ.txt').write_text('h\n1\n')
        c.raises('unknown code', KeyError, lambda: f(d, flat, sc))


# ---- older versions ------------------------------------------------------------------------------------------------------------

@contract('P28', [RC + '.read_cosmo_file', RC + '.read_cls_file', RC + '.read_v104_cosmo_file', RC + '.read_v110_cosmo_file'], weight=1)
def reader_of_a_version(c):
    """files are read in the layout of the version that wrote them"""
    v, kind = c.choice('version', [('1.0.4', 'old'), ('1.0.10', 'old'), ('1.1.0', 'middle'), ('1.1.1', 'new'), ('1.3.8', 'new'), ('1.10.0', 'new'), ('2.0.0', 'new')])
    load = c.choice('power', [True, False])
    c.stub(RC + ':read_v104_cosmo_file', lambda file: ('old', file))
    c.stub(RC + ':read_v110_cosmo_file', lambda file: ('middle', file))
    c.stub(RC + ':read_v104_cls_file', lambda file: ('old', file))
    c.stub(RC + ':Cosmology.fromHDF5', lambda file, load_power_spectrum=True: ('new', file, load_power_spectrum))
    c.stub(RC + ':AngularCoefficientsCollector.fromHDF5', lambda file: ('new', file))
    c.ensure('cosmology', c.target(RC + ':read_cosmo_file')('f', v, load) == (('new', 'f', load) if kind == 'new' else (kind, 'f')))
    c.ensure('spectra', c.target(RC + ':read_cls_file')('f', v) == ('old' if kind == 'old' else 'new', 'f'))


@contract('P28', [RC + '.write_old_cosmo_file', RC + '.read_v104_cosmo_file', RC + '.read_v110_cosmo_file', RC + '.read_v104_cls_file', RC + '.read_dcl_file'], mode='bounded', trials=40,
          bound='up to four redshifts, wavenumbers, bins and multipoles')
def files_of_old_versions(c):
    """tables in the layouts of older versions are read under the name of the quantity they are, and those written for them have the same
    values"""
    import h5py
    import numpy as np
    nz, nk, L, n = (c.int(x, 1, 4) for x in ('redshifts', 'wavenumbers', 'multipoles', 'bins'))
    z, k, E, r = (c.array(x, (s,)) for x, s in (('z', nz), ('k', nk), ('E', nz), ('r', nz)))
    lin, non = c.array('linear', (nz, nk)), c.array('nonlinear', (nz, nk))
    same = lambda a, b: np.array_equal(a, b)
    with scratch() as d:
        f = d / 'old.h5'
        c.target(RC + ':write_old_cosmo_file')(ns(z_grid=z, power_spectrum=ns(k_grid=k, lin_p_mm_z_k=lin, nonlin_p_mm_z_k=non)), f)
        with h5py.File(f, 'a') as h:
            h['/cosmology/dimensionless_hubble_parameter'] = E
            h['/cosmology/dimensionless_comoving_distance'] = r
            tf = c.choice('transfer', [True, False])
            if tf:
                h['transfer_function'] = k
        x = c.target(RC + ':read_v104_cosmo_file')(f)
        p = x.power_spectrum
        c.ensure('tables', same(x.z_grid, z) and same(p.z_grid, z) and same(p.k_grid, k) and same(p.lin_p_mm_z_k, lin) and same(p.nonlin_p_mm_z_k, non))
        c.ensure('distances', same(x.dimensionless_hubble_array, E) and same(x.dimensionless_comoving_distance_array, r))
        c.ensure('transfer', same(p.transfer_function, k) if tf else p.transfer_function is None)
        f = d / 'middle.h5'
        pars = {q: [c.real(f'{q} {w}') for w in ('fiducial', 'current')] + [c.choice('free ' + q, [True, False])] for q in ('h', 'wa')}
        with h5py.File(f, 'w') as h:
            h['cosmology/z_grid'], h['cosmology/dimensionless_hubble_array'], h['cosmology/dimensionless_comoving_distance_array'] = z, E, r
            for q, (a, b, free) in pars.items():
                g = h.create_group(f'cosmology/cosmological_parameters/{q}')
                g.attrs.update({'fiducial': a, 'current': b, 'is_present': free})
        x = c.target(RC + ':read_v110_cosmo_file')(f)
        c.ensure('tables', same(x.z_grid, z) and same(x.dimensionless_hubble_array, E) and same(x.dimensionless_comoving_distance_array, r))
        c.ensure('parameters', set(x.params) == set(pars) and all((x.params[q].name, x.params[q].fiducial, x.params[q].current_value, bool(x.params[q].is_free_parameter)) == (q, a, b, free) for q, (a, b, free) in pars.items()))
        pairs = c.choice('pairs', [[(PH, PH)], [(WL, PH), (PH, SP), (WL, WL)]])
        data = {q: c.array(f'C {q}', (L, n, n)) for q in pairs}
        ell, wid = c.array('l', (L,)), c.array('dl', (L,))
        K = {q: c.array(f'K {q}', (n, n, nz)) for q in pairs}
        W = {t: c.array(f'W {t}', (n, nz)) for t in (PH, SP, WL)}
        D = {t: c.array(f'D {t}', (n, nz)) for t in (PH, SP, WL)}
        with h5py.File(d / 'cls.h5', 'w') as h:
            for q in pairs:
                s = '_'.join(q)
                h[f'cls/{s}/c_lij'], h[f'cls/{s}/l_bin_centers'], h[f'cls/{s}/l_bin_widths'], h[f'kernels/{s}/k_ijz'] = data[q], ell, wid, K[q]
            for t in W:
                h[f'weight_functions/{t}'], h[f'density_functions/{t}/norm_density_i_z'] = W[t], D[t]
        x = c.target(RC + ':read_v104_cls_file')(d / 'cls.h5')
        c.ensure('pairs', set(x.cl_dict) == {'_'.join(q) for q in pairs})
        for q in pairs:
            cl = x.cl_dict['_'.join(q)]
            c.ensure('spectra', same(cl.c_lij, data[q]) and same(cl.l_bin_centers, ell) and same(cl.l_bin_widths, wid) and same(cl.kernel.k_ijz, K[q]) and (cl.probe1, cl.probe2) == q)
            for t, w in zip(q, (cl.kernel.weight1, cl.kernel.weight2)):
                c.ensure('weights', same(w.w_bin_z, W[t]) and same(w.density.norm_density_iz, D[t]))
        with h5py.File(d / 'dcl.h5', 'w') as h:
            for m, q in enumerate(pairs):
                h['_'.join(q) + ('/dc_lij' if m % 2 else '')] = data[q]
        got = c.target(RC + ':read_dcl_file')(d / 'dcl.h5')
        c.ensure('derivatives', set(got) == {'_'.join(q) for q in pairs} and all(same(got['_'.join(q)], data[q]) for q in pairs))


@contract('P28', [RL + '.RunLoader.loadPowerSpectra', RL + '.RunLoader.loadCosmologiesAndCls', RL + '.RunLoader.loadClDerivatives', RL + '.RunLoader.loadMetadata', RL + '.RunLoader.__init__',
                  RL + '.RunLoader.run_dir'], weight=1)
def runs_loaded(c):
    """power spectra, cosmologies, spectra and derivatives of a run are those of its directories, each under its parameter and step, read
    with the version of the run"""
    want = c.choice('parameters', [None, ['h'], ['h', 'bgph1'], ['other']])
    with scratch() as d:
        version = c.choice('version', ['1.2.3', '1.1.0a', '1.0.4'])
        run = d / f'mine_{version}_2026-01-02T03-04-05'
        steps = [('central', 0), ('h', 1), ('h', -1), ('h', 12), ('bgph1', 2), ('bgph10', 3)]
        job = c.target('seyfert.utils.filesystem_utils:get_cosmology_jobdir_name')
        for s in steps:
            for t, f in (('PowerSpectrum', 'p_mm.h5'), ('Angular', 'cl_WL_GCph.h5'), ('Angular', 'cosmology.h5')):
                if (f != 'cosmology.h5' or s[0] == 'h') and (t == 'Angular' or s[0] not in ('bgph1', 'bgph10')):
                    (run / t / job(*s)).mkdir(parents=True, exist_ok=True)
                    (run / t / job(*s) / f).write_text('')
        for p in ('h', 'bgph1'):
            (run / 'Derivative' / p).mkdir(parents=True)
            (run / 'Derivative' / p / 'cl_ders.h5').write_text('')
        (run / 'run_metadata.json').write_text('{"a": 1}') if c.choice('metadata', [True, False]) else None
        c.stub(RL + ':PowerSpectrum.fromHDF5', lambda f, *a, **k: Path(f))
        c.stub(RL + ':retro_comp.read_cosmo_file', lambda f, version, load_power_spectrum: (Path(f), version))
        c.stub(RL + ':retro_comp.read_cls_file', lambda f, version: ns(file=Path(f), version=version, z_grid='z'))
        c.stub(RL + ':retro_comp.read_dcl_file', lambda f: {f'{PH}_{WL}': Path(f), f'{WL}_{WL}': 'w'})
        r = c.target(RL + ':RunLoader')(run)
        r.loadMetadata()
        c.ensure('version', r.version == version and r.metadata in (None, {'a': 1}) and (r.metadata is None) == (not (run / 'run_metadata.json').exists()))
        r.loadPowerSpectra()
        key = lambda s: f'{s[0]}_{s[1]}'
        c.ensure('power spectra', r.pmms == {key(s): run / 'PowerSpectrum' / job(*s) / 'p_mm.h5' for s in steps if s[0] not in ('bgph1', 'bgph10')})
        if want == ['other']:
            c.raises('absent parameter', Exception, lambda: r.loadCosmologiesAndCls(want))
            return
        r.loadCosmologiesAndCls(want)
        sel = [s for s in steps if (want is None and s[0] != 'central') or s[0] in (want or [])]
        for x in (r.cls, r.cosmos):
            x.pop('central_0', None)
        c.ensure('spectra', {k: x.file for k, x in r.cls.items()} == {key(s): run / 'Angular' / job(*s) / 'cl_WL_GCph.h5' for s in sel} and all(x.version == version for x in r.cls.values()))
        c.ensure('cosmologies', r.cosmos == {key(s): (run / 'Angular' / job(*s) / 'cosmology.h5', version) for s in sel if s[0] == 'h'} and r.z_grid == 'z')
        c.ensure('keys', sorted(k for k in r.cosmo_keys if k != 'central_0') == sorted(map(key, sel)))
        r.loadClDerivatives()
        c.ensure('derivatives', r.dcls == {p: {'phwl': run / 'Derivative' / p / 'cl_ders.h5', 'wlwl': 'w'} for p in ('h', 'bgph1')})
