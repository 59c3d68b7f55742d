"""Analyses of several Fisher matrices: contents, sums, subsets, parameter ranges and confidence ellipses, tables over several runs."""
import itertools
from types import SimpleNamespace as ns
from pathlib import Path
from pyver.api import contract
from contracts.p06_fisher_algebra import FM, fisher, labels_are, unchanged
from contracts.p08_fisher_files import equals
from contracts.p22_storage import scratch

FA = 'seyfert.fisher.fisher_analysis'
FU = 'seyfert.fisher.fisher_utils'
A = FA + '.FisherAnalysis.'
TH = 'seyfert.notebook_helpers.table_helpers'
NM = 'seyfert.notebook_helpers.misc'
LH = 'seyfert.notebook_helpers.load_helpers'
RC = 'seyfert.fisher.results_collector'
FR = 'seyfert.fisher.fisher_results'

SETS = {'A': (['h', 'w0'], ['b1']), 'B': (['w0', 'h'], []), 'C': (['h'], ['b2', 'b1'])}


def matrices(c, names):
    return {n: fisher(c, n, *SETS[n]) for n in names}


@contract('P26', [A + f for f in ('__init__', 'fishers_order', '__getitem__', '__iter__', 'cosmo_pars_names', 'cosmo_pars_set', 'useBaseFishers', 'getParFiducialValue')], weight=2)
def contents_of_an_analysis(c):
    """an analysis contains exactly the matrices it was given, by name, in the given order unless another one is asked for"""
    names = c.choice('matrices', [('A',), ('B', 'A'), ('C', 'A', 'B')])
    ms = matrices(c, names)
    as_list = c.choice('given as', ['list', 'dictionary', 'base'])
    K = c.target(FA + ':FisherAnalysis')
    order = c.choice('order', [None] + [list(o) for o in (names[::-1], names[1:] + names[:1])])
    fid = {'h': c.real('h'), 'w0': c.real('w0')}
    given = {n: m for n, (m, v) in ms.items()}
    if as_list == 'base':
        an = K(cosmo_pars_fiducial=dict(fid))
        c.raises('nothing loaded', ValueError, lambda: an.useBaseFishers())
        an.base_fishers = dict(given)
        an.useBaseFishers()
        if order is not None:
            an.fishers_order = order
    else:
        an = K(fisher_matrices=list(given.values()) if as_list == 'list' else dict(given), fishers_order=order, cosmo_pars_fiducial=dict(fid))
    c.ensure('matrices', list(an.fisher_matrices) == list(names) and list(an) == list(names))
    c.ensure('order', list(an.fishers_order) == list(order if order is not None else names))
    for n, (m, v) in ms.items():
        c.ensure('same matrix', an[n] is m)
        labels_are(c, m, *SETS[n])
        for a in SETS[n][0] + SETS[n][1]:
            for b in SETS[n][0] + SETS[n][1]:
                c.ensure('entries', c.eq(m.matrix.loc[a, b], v[(a, b)]))
    c.ensure('parameters', c.and_(list(an.cosmo_pars_names) == ['h', 'w0'], set(an.cosmo_pars_set) == {'h', 'w0'}))
    for p in fid:
        c.ensure('fiducial', c.eq(an.getParFiducialValue(p), fid[p]))
    def reorder(o):
        an.fishers_order = o
    before = list(an.fishers_order)
    for bad in ([], list(names) + ['Z'], list(names)[1:], ['Z'] + list(names)[1:]):
        c.raises('order refused', Exception, lambda: reorder(bad))
    c.raises('not a list', Exception, lambda: reorder(tuple(names)))
    c.ensure('order kept', list(an.fishers_order) == before)
    c.raises('not matrices', Exception, lambda: K(fisher_matrices=[m.matrix for m, v in ms.values()]))
    c.raises('not matrices', Exception, lambda: K(fisher_matrices={n: m.matrix for n, (m, v) in ms.items()}))


@contract('P26', [A + f for f in ('evaluateFishersFromAddendsList',)], weight=3)
def sums_of_an_analysis(c):
    """the matrices asked for are the base ones and their sums, named by their addends; the base matrices are left unchanged;
    an unknown addend is refused"""
    ms = matrices(c, ['A', 'B', 'C'])
    an = c.target(FA + ':FisherAnalysis')()
    an.base_fishers = {n: m for n, (m, v) in ms.items()}
    lists = c.choice('sums', [[['A']], [['C', 'A']], [['B'], ['A', 'B'], ['C', 'B', 'A']], [['A', 'B', 'C'], ['B']], [['B', 'C'], ['B', 'A']]])
    an.evaluateFishersFromAddendsList([list(l) for l in lists])
    c.ensure('names', set(an.fisher_matrices) == {'+'.join(l) for l in lists})
    for l in lists:
        m = an.fisher_matrices['+'.join(l)]
        cosmo = set().union(*[SETS[n][0] for n in l])
        nuis = set().union(*[SETS[n][1] for n in l])
        labels_are(c, m, cosmo, nuis, 'sum ')
        for a in sorted(cosmo | nuis):
            for b in sorted(cosmo | nuis):
                c.ensure('sum', c.eq(m.matrix.loc[a, b], sum(ms[n][1].get((a, b), 0) for n in l)))
    for n, (m, v) in ms.items():
        unchanged(c, m, SETS[n][0] + SETS[n][1], v, *SETS[n], 'base ')
    c.ensure('base', set(an.base_fishers) == {'A', 'B', 'C'})
    for bad in ([['Z']], [['A', 'Z']], [['A'], ['Z', 'B']]):
        c.raises('unknown', Exception, lambda: an.evaluateFishersFromAddendsList(bad))


def with_errors(c, names, pars):
    """an analysis with a table of errors"""
    pd = c.target(FA + ':pd')
    fid = {p: c.real('fiducial_' + p) for p in pars}
    an = c.target(FA + ':FisherAnalysis')(cosmo_pars_fiducial=dict(fid))
    s = {(n, p): c.real(f'sigma_{n}_{p}', positive=True) for n in names for p in pars}
    an.marginalized_errors = pd.DataFrame([[s[(n, p)] for p in pars] for n in names], index=list(names), columns=list(pars))
    an.relative_marginalized_errors = pd.DataFrame([[2 * s[(n, p)] for p in pars] for n in names], index=list(names), columns=list(pars))
    return an, fid, s


@contract('P26', [A + f for f in ('computeParameterRangeForObsAtCL', 'computeGaussianInfoDictForObsAndCL')], weight=2)
def ranges_of_parameters(c):
    """the range of a parameter at a confidence level is centred on its fiducial value and holds that probability of a Gaussian with
    its marginalised error; the curve drawn is that Gaussian with peak one, marked where it lies in the range"""
    names, pars = ['WL', 'GCph'], ['h', 'w0']
    an, fid, s = with_errors(c, names, pars)
    n, p = c.choice('matrix', names), c.choice('parameter', pars)
    CL = c.real('CL', conc=(0.05, 0.99))
    c.require(c.and_(CL > 0, CL < 1))
    lo, hi = an.computeParameterRangeForObsAtCL(p, n, CL)
    w = c.sqrt(2) * c.special().erfinv(CL) * s[(n, p)]
    c.ensure('range', c.and_(c.eq(lo, fid[p] - w), c.eq(hi, fid[p] + w)))
    if not c.sym:
        import math
        c.ensure('probability', abs(math.erf((hi - lo) / 2 / s[(n, p)] / math.sqrt(2)) - CL) < 1e-9)
    a, b = c.real('x_min'), c.real('x_max')
    c.require(a < b)
    d = an.computeGaussianInfoDictForObsAndCL(p, n, CL, a, b)
    c.ensure('centre', c.and_(c.eq(d['mean'], fid[p]), c.eq(d['sigma'], s[(n, p)])))
    k = c.len(d['x'])
    c.ensure('interval', c.and_(c.eq(c.get(d['x'], 0), a), c.eq(c.get(d['x'], k - 1), b), k >= 2))
    c.forall('curve', [k], lambda i: c.eq(c.get(d['y'], i), c.exp(-(c.get(d['x'], i) - fid[p]) ** 2 / (2 * s[(n, p)] ** 2))))
    c.forall('marked', [k], lambda i: c.get(d['cl_mask'], i) == c.and_(c.get(d['x'], i) >= lo, c.get(d['x'], i) <= hi))


@contract('P26', [A + 'computeEllipseInfoDictForObsAndCL'], weight=2)
def confidence_ellipses(c):
    """the ellipse of two parameters is centred on the fiducial values; its axes are those of their block of the covariance"""
    pd = c.target(FA + ':pd')
    labels = ['h', 'ns', 'w0']
    fid = {p: c.real('fiducial_' + p) for p in labels}
    an = c.target(FA + ':FisherAnalysis')(cosmo_pars_fiducial=dict(fid))
    v = {}
    for i, a in enumerate(labels):
        for b in labels[i:]:
            v[(a, b)] = v[(b, a)] = c.real(f'C_{a}_{b}')
    if not c.sym:
        import numpy as np
        M = np.array([[v[(a, b)] for b in labels] for a in labels])
        M = M @ M + 0.1 * np.eye(3)
        v = {(a, b): M[i, j] for i, a in enumerate(labels) for j, b in enumerate(labels)}
    x, y = c.choice('parameters', list(itertools.permutations(labels, 2)))
    C = lambda a, b: v[(a, b)]
    det = C(x, x) * C(y, y) - C(x, y) * C(x, y)
    c.require(c.and_(C(x, x) > 0, C(y, y) > 0, det > 0))
    table = pd.DataFrame([[v[(a, b)] for b in labels] for a in labels], index=labels, columns=labels)
    an.fisher_matrices = {'WL': ns(inverse=table), 'GCph': ns(inverse=None)}
    CL = c.real('CL', conc=(0.05, 0.99))
    c.require(c.and_(CL > 0, CL < 1))
    e = an.computeEllipseInfoDictForObsAndCL(x, y, 'WL', CL)
    c.ensure('centre', c.and_(c.eq(e['xy'][0], fid[x]), c.eq(e['xy'][1], fid[y])))
    half, root = (C(x, x) + C(y, y)) / 2, c.sqrt((C(x, x) - C(y, y)) ** 2 / 4 + C(x, y) ** 2)
    k = c.sqrt(2) * c.special().erfinv(CL)
    c.ensure('axes', c.and_(c.eq(e['width'], 2 * k * c.sqrt(half + root)), c.eq(e['height'], 2 * k * c.sqrt(half - root))))
    if c.sym:
        c.ensure('direction', c.eq(e['angle'], c.div(180 * c.np().arctan2(2 * C(x, y), C(x, x) - C(y, y)), 2 * c.np().pi)))
    else:
        import math
        import numpy as np
        inv = np.linalg.inv(np.array([[C(x, x), C(x, y)], [C(x, y), C(y, y)]]))
        t = math.radians(e['angle'])
        for phi in (0.0, 0.7, 2.0, 4.4):
            a, b = e['width'] / 2 * math.cos(phi), e['height'] / 2 * math.sin(phi)
            p = np.array([a * math.cos(t) - b * math.sin(t), a * math.sin(t) + b * math.cos(t)])
            c.ensure('on the ellipse', abs(p @ inv @ p / k ** 2 - 1) < 1e-6)


@contract('P26', [A + 'getSubsetAnalysis'], weight=2)
def subsets_of_an_analysis(c):
    """a subset has the requested matrices and their errors, in the requested order; the analysis itself is left as it was"""
    names, pars = ['A', 'B', 'C'], ['h']
    an, fid, s = with_errors(c, names, pars)
    ms = matrices(c, names)
    an.fisher_matrices = {n: m for n, (m, v) in ms.items()}
    an.base_fishers = {n: ms[n][0] for n in ('B', 'A')}
    sub = c.choice('subset', [['A'], ['C', 'A'], ['B', 'C', 'A'], ['A', 'B', 'C'], ['C', 'Z']])
    if 'Z' in sub:
        c.raises('unknown', Exception, lambda: an.getSubsetAnalysis(sub))
        return
    again = c.choice('recompute', [True, False])
    done = []
    if again:
        K = FA + ':FisherAnalysis.'

        def evaluate(self):
            done.append(self)
            self.marginalized_errors = self.relative_marginalized_errors = None
        c.stub(K + 'evaluateMarginalizedErrors', evaluate)
        c.stub(K + 'evaluateRelativeMarginalizedErrors', lambda self: done.append(self))
    r = an.getSubsetAnalysis(list(sub), recompute_errs=again)
    c.ensure('matrices', set(r.fisher_matrices) == set(sub) and list(r.fishers_order) == sub and set(r.base_fishers) == set(sub) & {'A', 'B'})
    for n in sub:
        unchanged(c, r[n], SETS[n][0] + SETS[n][1], ms[n][1], *SETS[n], 'subset ')
    if again:
        c.ensure('recomputed', len(done) >= 1 and all(d is r for d in done))
    else:
        c.ensure('rows', list(r.marginalized_errors.index) == sub and list(r.relative_marginalized_errors.index) == sub)
        for n in sub:
            c.ensure('errors', c.and_(c.eq(r.marginalized_errors.loc[n, 'h'], s[(n, 'h')]), c.eq(r.relative_marginalized_errors.loc[n, 'h'], 2 * s[(n, 'h')])))
    c.ensure('whole', c.and_(list(an.fisher_matrices) == names, list(an.fishers_order) == names, list(an.marginalized_errors.index) == names))
    for n in names:
        c.ensure('whole errors', c.eq(an.marginalized_errors.loc[n, 'h'], s[(n, 'h')]))
    c.ensure('fiducials', r.cosmo_pars_fiducials == an.cosmo_pars_fiducials)


@contract('P26', [A + f for f in ('loadBaseFishersFromDir', 'fromFishersDir', 'saveFishersToDisk', 'useBaseFishers', 'sliceBaseFishers')], weight=3, trials=20)
def matrices_of_a_directory(c):
    """all the Fisher matrices of a directory are loaded under their names; cosmological parameters outside the analysis are fixed"""
    names = c.choice('matrices', [(), ('A',), ('C', 'A', 'B')])
    ms = matrices(c, names)
    K = c.target(FA + ':FisherAnalysis')
    an = K(fisher_matrices={n: m for n, (m, v) in ms.items()})
    with scratch() as d:
        an.saveFishersToDisk(d)
        (d / 'other.hdf5').write_text('not a Fisher matrix')
        (d / 'fisher_notes.txt').write_text('not a Fisher matrix')
        pars = c.choice('parameters', [None, {'h': 0.67}])
        if pars is None:
            r = K()
            r.loadBaseFishersFromDir(str(d))
            c.ensure('not used yet', len(r.fisher_matrices) == 0)
            got = r.base_fishers
        else:
            coll = ns(free_cosmo_pars_fiducials=pars)
            r = K.fromFishersDir(d, coll)
            got = r.fisher_matrices
            c.ensure('parameters', c.and_(r.phys_pars is coll, list(r.cosmo_pars_names) == list(pars)))
        c.ensure('names', set(got) == set(names))
        for n in names:
            cosmo, nuis = SETS[n]
            cosmo = [p for p in cosmo if pars is None or p in pars]
            equals(c, 'read', got[n], sorted(cosmo + nuis), ms[n][1], cosmo, nuis, n)
        for n in names:
            cosmo, nuis = SETS[n]
            labels_are(c, ms[n][0], cosmo, nuis, 'given ')
        c.raises('no directory', FileNotFoundError, lambda: r.loadBaseFishersFromDir(d / 'none'))
        if names:
            c.raises('already saved', FileExistsError, lambda: an.saveFishersToDisk(d))
            an.saveFishersToDisk(d, overwrite=True)


@contract('P26', [A + f for f in ('prepareFisherMatrices', 'invertFishers', 'sliceFishers', 'correlation_matrices')], weight=2)
def matrices_prepared(c):
    """every matrix of an analysis gets the inverse and the correlations of its own parameters"""
    names = c.choice('matrices', [('A',), ('C', 'B')])
    vs = {n: c.pd_matrix(n, SETS[n][0] + SETS[n][1]) for n in names}
    pd = c.target(FM + ':pd')
    ms = {}
    for n in names:
        o = SETS[n][0] + SETS[n][1]
        ms[n] = c.target(FM + ':FisherMatrix')(matrix_df=pd.DataFrame([[vs[n][(a, b)] for b in o] for a in o], index=o, columns=o), name=n,
                                               cosmological_parameters=SETS[n][0], nuisance_parameters=SETS[n][1])
    an = c.target(FA + ':FisherAnalysis')(fisher_matrices=ms)
    if c.choice('how', ['prepare', 'invert']) == 'prepare':
        an.prepareFisherMatrices()
    else:
        an.invertFishers()
    corr = an.correlation_matrices
    c.ensure('names', set(corr) == set(names))
    for n in names:
        o = SETS[n][0] + SETS[n][1]
        w = c.inverse(vs[n], o)
        c.require(c.and_(*[w[(a, a)] > 0 for a in o]))
        for a in o:
            for b in o:
                c.ensure('inverse', c.eq(an[n].inverse.loc[a, b], w[(a, b)]))
                if a in SETS[n][0] and b in SETS[n][0]:
                    c.ensure('correlation', c.eq(corr[n].loc[a, b] * c.sqrt(w[(a, a)]) * c.sqrt(w[(b, b)]), w[(a, b)]))


@contract('P26', [A + 'fromRundir', A + 'loadFromRundir'], weight=1)
def analysis_of_a_run(c):
    """the analysis of a run uses the matrices of its results directory for the cosmology, its parameters (without the dark energy
    ones in LCDM) and its options"""
    asked = []
    pars = {'h': 0.67, 'w0': -1.0, 'wa': 0.0}

    class Pars(dict):
        @property
        def free_cosmo_pars_fiducials(self):
            return dict(self)
    coll = Pars(pars)

    class WS:
        def __init__(self, d):
            asked.append(d)

        def getResultsDir(self, **k):
            asked.append(k)
            return Path('/results')

        def getParamsCollection(self):
            return coll

        def getForecastConfiguration(self):
            return ns(synthetic_opts={'scenario': 'optimistic', 'n_sp_bins': 4}, getConfigID=lambda: 'some run')

        def getRunMetadata(self):
            return {'run_id': 'run 7', 'when': 'now'}
    c.stub(FA + ':WorkSpace', WS)
    loaded = []

    def load(self, fishers_dir):
        loaded.append((fishers_dir, None if self.cosmo_pars_fiducials is None else dict(self.cosmo_pars_fiducials)))
        self.base_fishers = {'WL': 'a matrix'}
    c.stub(FA + ':FisherAnalysis.loadBaseFishersFromDir', load)
    K = c.target(FA + ':FisherAnalysis')
    if c.choice('how', ['new', 'existing']) == 'new':
        cosmology, sub = c.choice('cosmology', ['LCDM', 'w0_wa_CDM']), c.choice('results', ['marg_before', 'marg_after'])
        an = K.fromRundir('/run', cosmology=cosmology, res_subdir_name=sub)
        want = {'h': 0.67} if cosmology == 'LCDM' else pars
        c.ensure('place', asked[0] == '/run' and asked[1].get('cosmology', 'w0_wa_CDM') == cosmology and asked[1].get('res_subdir_name', 'marg_before') == sub)
        c.ensure('loaded', loaded == [(Path('/results'), want)])
        c.ensure('parameters', c.and_(dict(an.cosmo_pars_fiducials) == want, an.phys_pars is coll))
        c.ensure('options', an.metadata == {'scenario': 'optimistic', 'n_sp_bins': 4} and an.name == 'some run')
        row = an.toDataFrameRow() if not c.sym else None
        if row is not None:
            c.ensure('row', dict(row) == {'scenario': 'optimistic', 'n_sp_bins': 4, 'analysis': an})
    else:
        an = K(cosmo_pars_fiducial={'h': 0.67})
        use = c.choice('use', [True, False])
        an.loadFromRundir('/run', use_base_fishers=use, cosmology='LCDM')
        c.ensure('place', asked == ['/run', {'cosmology': 'LCDM'}])
        c.ensure('loaded', loaded == [(Path('/results'), {'h': 0.67})])
        c.ensure('options', an.metadata == {'run_id': 'run 7', 'when': 'now'} and an.name == 'run 7' and an.phys_pars is coll)
        c.ensure('used', dict(an.fisher_matrices) == ({'WL': 'a matrix'} if use else {}))
        return
    c.ensure('used', dict(an.fisher_matrices) == {'WL': 'a matrix'})


@contract('P26', [FU + '.get_nuisance_set_for_fisher', FU + '.get_probes_from_fisher_name'], weight=1)
def nuisance_of_a_matrix(c):
    """the nuisance parameters of a Fisher matrix are the free ones of its probes"""
    own = {'WL': ['aIA'], 'GCph': ['bgph1', 'bgph2'], 'GCsp': []}
    names = c.choice('probes', [p for k in (1, 2, 3) for p in itertools.permutations(own, k)])
    xc = c.choice('cross', [True, False])
    f = c.target(FU + ':get_nuisance_set_for_fisher')
    cfg = ns(phys_pars=ns(getFreeNuisanceParametersForProbe=lambda probe: {p: 1.0 for p in own[probe]}))
    got = f('+'.join(names + (('XC',) if xc else ())), cfg)
    c.ensure('nuisance', set(got) == {q for p in names for q in own[p]})


@contract('P26', [A + f for f in ('writeAbsoluteAndRelativeMarginalizedErrors', 'writeMarginalizedErrorsToFile', 'writeRelativeMarginalizedErrorsToFiles', 'writeCorrelationMatricesToFiles')] +
          ['seyfert.utils.table_utils.write_dataframe_table'], mode='bounded', trials=15, bound='random tables of up to 3 matrices and 3 parameters')
def tables_written(c):
    """the tables of errors read back from the files written; existing files are replaced only when asked"""
    import pandas as pd
    names, pars = ['WL', 'GCph', '[WL+GCph+XC]'][:c.choice('matrices', [1, 2, 3])], ['h', 'ns', 'w0'][:c.choice('parameters', [1, 2, 3])]
    an, fid, s = with_errors(c, names, pars)
    an.name = 'some_run'
    an.fisher_matrices = {n: ns(correlation=pd.DataFrame([[s[(n, p)] * s[(n, q)] for q in pars] for p in pars], index=pars, columns=pars)) for n in names}
    with scratch() as d:
        an.writeAbsoluteAndRelativeMarginalizedErrors(d)
        an.writeCorrelationMatricesToFiles(d)

        def check(k):
            for stem, f in (('marginalized_errors', k), ('relative_marginalized_errors', 2 * k)):
                for t in (pd.read_csv(d / f'{stem}_some_run.csv', index_col=0), pd.read_excel(d / f'{stem}_some_run.xlsx', index_col=0)):
                    c.ensure('labels', list(t.index) == names and list(t.columns) == pars)
                    for n in names:
                        for p in pars:
                            c.ensure('table', c.eq(t.loc[n, p], f * s[(n, p)]))
        check(1)
        for n in names:
            t = pd.read_csv(d / f'some_run_correlation_{n}.csv', index_col=0)
            for p, q in itertools.product(pars, pars):
                c.ensure('correlation', c.eq(t.loc[p, q], s[(n, p)] * s[(n, q)]))
        an.marginalized_errors = 3 * an.marginalized_errors
        an.relative_marginalized_errors = 3 * an.relative_marginalized_errors
        an.writeAbsoluteAndRelativeMarginalizedErrors(d)
        check(1)
        an.writeAbsoluteAndRelativeMarginalizedErrors(d, overwrite=True)
        check(3)
        c.raises('kind of file', Exception, lambda: c.target('seyfert.utils.table_utils:write_dataframe_table')(an.marginalized_errors, d / 'x.txt'))


OPTS = ['n_sp_bins', 'scenario', 'shot_noise_sp_reduced', 'gcph_minus_gcsp', 'gcph_only_bins_in_spectro_range']


def runs_table(c, fishers, nbins, scenarios):
    import pandas as pd
    rows = []
    for sc, nb, f in itertools.product(scenarios, nbins, fishers):
        rows.append({'fisher': f, 'n_sp_bins': nb, 'scenario': sc, 'shot_noise_sp_reduced': False, 'gcph_minus_gcsp': False, 'gcph_only_bins_in_spectro_range': False,
                     'FoM': c.real(f'FoM_{sc}_{nb}_{f}', positive=True), 'h': c.real(f'h_{sc}_{nb}_{f}', positive=True)})
    order = list(range(len(rows)))
    if c.choice('shuffled', [True, False]):
        import random
        random.Random(c.int('seed', 0, conc=(0, 1000))).shuffle(order)
    return pd.DataFrame([rows[k] for k in order]), {(r['fisher'], r['n_sp_bins'], r['scenario']): r for r in rows}


@contract('P26', [TH + '.replace_hybrid_fishers_with_4_bins_equivalents', TH + '.set_results_indices'], mode='bounded', trials=40, bound='random tables of up to 2 scenarios, 4 numbers of bins and 3 matrices')
def hybrid_rows_replaced(c):
    """the rows of matrices with the spectroscopic power spectrum take the values of the same case with four bins, all others keep theirs"""
    fishers = c.choice('matrices', [['WL', '[GCph+WL+XC] + [GCsp(Pk)]'], ['GCsp(Pk)', 'GCsp', 'WL']])
    nbins = c.choice('bins', [[4], [4, 12], [12, 4, 24, 40]])
    df, want = runs_table(c, fishers, nbins, c.choice('scenarios', [['optimistic'], ['optimistic', 'pessimistic']]))
    n = len(df)
    c.target(TH + ':replace_hybrid_fishers_with_4_bins_equivalents')(df)
    c.ensure('rows', len(df) == n and len({(r.fisher, r.n_sp_bins, r.scenario) for r in df.itertuples()}) == n)
    for r in df.itertuples():
        w = want[(r.fisher, 4 if 'GCsp(Pk)' in r.fisher else r.n_sp_bins, r.scenario)]
        c.ensure('values', c.and_(c.eq(r.FoM, w['FoM']), c.eq(r.h, w['h'])))


@contract('P26', [TH + '.get_subdf_for_fishers', TH + '.select_from_query_dict', TH + '.query_dict', TH + '.default_query_dict', TH + '.remove_constant_columns_from_df',
                  TH + '.drop_not_numeric_columns'], mode='bounded', trials=60, bound='random tables of up to 2 scenarios, 4 numbers of bins and 3 matrices')
def rows_selected(c):
    """a selection has exactly the rows that satisfy it, with their values"""
    fishers, nbins = ['WL', 'GCph', '[WL+GCph+XC]'], c.choice('bins', [[4], [4, 12], [12, 4, 24, 40]])
    df, want = runs_table(c, fishers, nbins, ['optimistic', 'pessimistic'])
    before = df.copy()
    names = c.choice('names', [['GCph'], ['[WL+GCph+XC]', 'WL'], ['GCph', 'WL', '[WL+GCph+XC]']])
    by = c.choice('sorted by', [None, ['fisher'], ['n_sp_bins', 'fisher']])
    r = c.target(TH + ':get_subdf_for_fishers')(df, names, sort_by=by)
    key = lambda x: (str(x.fisher), x.n_sp_bins, x.scenario)
    c.ensure('matrices', sorted(key(x) for x in r.itertuples()) == sorted(k for k in want if k[0] in names))
    for x in r.itertuples():
        c.ensure('values', c.and_(c.eq(x.FoM, want[key(x)]['FoM']), c.eq(x.h, want[key(x)]['h'])))
    rank = [((x.n_sp_bins,) if by and len(by) == 2 else ()) + (names.index(x.fisher),) for x in r.itertuples()]
    if by:
        c.ensure('sorted', rank == sorted(rank))
    c.raises('missing', KeyError, lambda: c.target(TH + ':get_subdf_for_fishers')(df, ['GCph', 'Z']))
    q = c.target(TH + ':query_dict')(exclude=c.choice('excluded', [None, ['scenario'], ['scenario', 'gcph_minus_gcsp', 'unknown']]),
                                     **c.choice('asked', [{}, {'scenario': 'pessimistic'}, {'gcph_minus_gcsp': True, 'other': 1}]))
    keep, drop = c.choice('columns', [True, False]), c.choice('index', [True, False])
    s = c.target(TH + ':select_from_query_dict')(df, q, drop_index=drop, remove_constant_columns=keep)
    sel = [k for k, row in want.items() if all(row[a] == v for a, v in q.items())]
    vals = sorted((want[k]['FoM'], want[k]['h']) for k in sel)
    if len(sel) != 1 and keep and len(sel) > 0:
        c.ensure('constant columns', all(s[col].nunique() > 1 for col in s.columns))
    c.ensure('selected', sorted((x.FoM, x.h) for x in s.itertuples()) == vals)
    if drop:
        c.ensure('numbered', list(s.index) == list(range(len(sel))))
    c.raises('unknown', KeyError, lambda: c.target(TH + ':select_from_query_dict')(df, {'colour': 1}))
    num = c.target(TH + ':drop_not_numeric_columns')(df)
    c.ensure('numeric', set(num.columns) == {'n_sp_bins', 'FoM', 'h'})
    c.ensure('unchanged', df.equals(before))


@contract('P26', [TH + '.get_fom_table_for_fishers'], mode='bounded', trials=30, bound='random tables of 3 matrices and up to 3 numbers of bins')
def figures_of_merit_compared(c):
    """every mapped matrix has the change of its figure of merit, absolute and in per cent, with respect to its reference in the same case"""
    fishers, nbins = ['WL', 'GCph', '[WL+GCph+XC]'], c.choice('bins', [[4], [4, 12], [12, 4, 24]])
    df, want = runs_table(c, fishers, nbins, ['optimistic'])
    refs = c.choice('references', [{'WL': 'GCph'}, {'[WL+GCph+XC]': 'WL', 'GCph': 'WL'}])
    t = c.target(TH + ':get_fom_table_for_fishers')(df, fishers, refs)
    c.ensure('rows', len(t) == len(want))
    for idx, row in t.iterrows():
        f, nb, sc = idx[:3]
        w = want[(f, nb, sc)]['FoM']
        c.ensure('figure of merit', c.eq(row['FoM'], w))
        if f in refs:
            r = want[(refs[f], nb, sc)]['FoM']
            c.ensure('change', c.and_(c.eq(row['Delta FoM'], w - r), c.eq(row['Delta FoM (%)'], 100 * (w - r) / r)))
        else:
            c.ensure('none', row['Delta FoM'] != row['Delta FoM'] and row['Delta FoM (%)'] != row['Delta FoM (%)'])


@contract('P26', [TH + '.get_latex_row'], mode='bounded', trials=60, bound='random rows')
def row_of_a_table(c):
    """a row of a table has the name, the figure of merit, its change with its sign, and the errors"""
    import re
    import pandas as pd
    fom, ref = c.real('fom', positive=True), c.real('ref', positive=True)
    errs = [c.real(f'e{k}', positive=True) for k in range(3)]
    given = c.choice('reference', [True, False])
    row = pd.Series({'nbins': 4, 'fisher': 'WL', 'FoM': fom, 'h': errs[0], 'ns': errs[1], 'w0': errs[2]})
    text = c.target(TH + ':get_latex_row')(row, ref_fom=ref if given else None)
    parts = [x.strip() for x in text.replace('\\\\', '').split('&')]
    c.ensure('figure of merit', parts[2] == '%.2f' % fom)
    m = re.search(r'([+-]*)(\d+\.\d+)', parts[3])
    if given:
        d = 100 * (fom - ref) / ref
        c.ensure('change', m is not None and m.group(1) in '+-' and m.group(2) == '%.2f' % abs(d) and (abs(d) < 0.005 or (m.group(1) == '-') == (d < 0)))
    else:
        c.ensure('no change', m is None)
    c.ensure('errors', parts[4:] == ['%.4f' % e for e in errs])


@contract('P26', [LH + '.replace_hybrid_fishers_with_4_bins_equivalents', LH + '.load_workspaces_for_scenario'], mode='bounded', trials=40, bound='directories of up to 12 runs')
def runs_of_a_scenario(c):
    """the runs of a scenario are found by their names and numbers of bins; matrices with the spectroscopic power spectrum are those of the run with four bins"""
    nbins = c.choice('bins', [[4], [12, 4], [40, 24, 4, 12]])
    sub = c.choice('subtracted', [True, False])
    scenario = c.choice('scenario', ['optm', 'pess'])
    with scratch() as d:
        for sc, nb in itertools.product(('optm', 'pess'), nbins):
            (d / f'{sc}_{nb}_sp_bins_today').mkdir()
            (d / f'{sc}_{nb}_sp_bins_gcph_minus_gcsp').mkdir()
        (d / 'notes_optm_4_sp_bins_').mkdir()
        (d / 'optm_8_sp_bins_file').write_text('')
        ws = c.target(LH + ':load_workspaces_for_scenario')(scenario, gcph_sub_flag=sub, base_dir=d)
        tag = 'gcph_minus_gcsp' if sub else 'today'
        c.ensure('runs', {k: Path(w.run_dir).name for k, w in ws.items()} == {nb: f'{scenario}_{nb}_sp_bins_{tag}' for nb in nbins})
    names = ['WL', 'GCsp(Pk)', '[GCph] + [GCsp(Pk)]']
    ans = {nb: ns(fisher_matrices={n: (nb, n) for n in names}) for nb in nbins}
    c.target(LH + ':replace_hybrid_fishers_with_4_bins_equivalents')(ans)
    for nb in nbins:
        c.ensure('replaced', ans[nb].fisher_matrices == {n: (4 if 'Pk' in n else nb, n) for n in names})


@contract('P26', [RC + '.ResultsCollector.' + f for f in ('loadWorkSpaces', 'buildErrorsTable', 'buildMarginalizedErrorsTable', 'buildRelativeMarginalizedErrorsTable', 'getErrorsTableFromAnalysesDataFrame',
                                                          'getFisherAnalysesSubDf')], mode='bounded', trials=15, bound='up to 3 runs of 2 matrices')
def tables_over_runs(c):
    """the collected tables hold the errors of every run with the options of that run"""
    import pandas as pd
    m = c.choice('runs', [1, 2, 3])
    names, pars = ['WL', 'GCph'], ['FoM', 'h']
    v = {(k, kind, n, p): c.real(f'{k}_{kind}_{n}_{p}', positive=True) for k in range(m) for kind in ('marginalized_errors', 'relative_marginalized_errors') for n in names for p in pars}
    rc = c.target(RC + ':ResultsCollector')()
    table = lambda k, kind: pd.DataFrame([[v[(k, kind, n, p)] for p in pars] for n in names], index=pd.Index(names, name='fisher'), columns=pars)
    with scratch() as d:
        rc.ws_list, rc.fcfg_list = [], []
        for k in range(m):
            (d / str(k)).mkdir()
            for kind in ('marginalized_errors', 'relative_marginalized_errors'):
                table(k, kind).to_csv(d / str(k) / f'{kind}_run{k}.csv')
            rc.ws_list.append(ns(getResultsDir=lambda k=k, **kw: d / str(k)))
            rc.fcfg_list.append(ns(synthetic_opts={'n_sp_bins': 4 * k, 'scenario': 'optimistic'}))
        for kind, t in (('marginalized_errors', rc.buildMarginalizedErrorsTable()), ('relative_marginalized_errors', rc.buildRelativeMarginalizedErrorsTable())):
            c.ensure('rows', len(t) == m * len(names))
            for r in t.itertuples():
                for p in pars:
                    c.ensure('values', c.eq(getattr(r, p), v[(r.n_sp_bins // 4, kind, r.fisher, p)]))
                c.ensure('options', r.scenario == 'optimistic')
    an = [ns(marginalized_errors=table(k, 'marginalized_errors'), relative_marginalized_errors=table(k, 'relative_marginalized_errors'), getSubsetAnalysis=lambda f, k=k: (k, f)) for k in range(m)]
    rc.analyses_df = pd.DataFrame([[4 * k, 'optimistic', an[k]] for k in range(m)], columns=['n_sp_bins', 'scenario', 'analysis'])
    for kind, t in (('marginalized_errors', rc.getMarginalizedErrorsTableFromAnalysesDataFrame()), ('relative_marginalized_errors', rc.getRelativeMarginalizedErrorsTableFromAnalysesDataFrame())):
        c.ensure('rows', len(t) == m * len(names))
        for r in t.itertuples():
            for p in pars:
                c.ensure('values', c.eq(getattr(r, p), v[(r.n_sp_bins // 4, kind, r.fisher, p)]))
    k = c.choice('selected', list(range(m)))
    s = rc.getFisherAnalysesSubDf({'n_sp_bins': 4 * k})
    c.ensure('selected', list(s['analysis']) == [an[k]])
    s = rc.getFisherAnalysesSubDf({'n_sp_bins': 4 * k}, sel_fishers=['WL'])
    c.ensure('subset', list(s['analysis']) == [(k, ['WL'])])
    c.ensure('kept', list(rc.analyses_df['analysis']) == an)


@contract('P26', [RC + '.ResultsCollector.replaceHybridFishersWith4BinsEquivalents'], mode='bounded', trials=30, bound='up to 3 runs of 3 matrices')
def hybrid_matrices_replaced(c):
    """matrices with the spectroscopic power spectrum, and their errors, are those of the same case with four bins"""
    import pandas as pd
    names, pars = ['WL', 'GCsp(Pk)', '[WL] + [GCsp(Pk)]'], ['FoM', 'h']
    rc = c.target(RC + ':ResultsCollector')()
    nbins = c.choice('bins', [[4], [12, 4], [24, 4, 12]])
    v = {(nb, sc, n, p): c.real(f'{nb}_{sc}_{n}_{p}', positive=True) for nb in nbins for sc in ('optimistic', 'pessimistic') for n in names for p in pars}
    rows = []
    for nb, sc in itertools.product(nbins, ('optimistic', 'pessimistic')):
        t = pd.DataFrame([[v[(nb, sc, n, p)] for p in pars] for n in names], index=names, columns=pars)
        rows.append([nb, sc, False, False, False, ns(fisher_matrices={n: (nb, sc, n) for n in names}, marginalized_errors=t, relative_marginalized_errors=t.copy())])
    rc.analyses_df = pd.DataFrame(rows, columns=OPTS + ['analysis'])
    rc.replaceHybridFishersWith4BinsEquivalents()
    c.ensure('rows', len(rc.analyses_df) == len(rows))
    for r in rc.analyses_df.itertuples():
        an = r.analysis
        for n in names:
            nb = 4 if 'Pk' in n else r.n_sp_bins
            c.ensure('matrices', an.fisher_matrices[n] == (nb, r.scenario, n))
            for p in pars:
                c.ensure('errors', c.eq(an.marginalized_errors.loc[n, p], v[(nb, r.scenario, n, p)]))
                c.ensure('relative errors', c.eq(an.relative_marginalized_errors.loc[n, p], v[(nb, r.scenario, n, p)]))


@contract('P26', [FR + '.FisherResultsCollector.' + f for f in ('__init__', 'loadFromConfigFile', 'checkCosmologies', 'setupFisherAnalyses', 'marg_errs', 'rel_marg_errs', 'buildCosmologySubdirsDict')],
          mode='bounded', trials=30, bound='two cosmologies, stand-in analyses')
def results_set_up(c):
    """each cosmology present in the settings is analysed with its own parameters; parameters that are not free are refused"""
    import json
    present = {'LCDM': c.choice('LCDM', ['true', 'false', 'True', 'False']), 'w0_wa_CDM': c.choice('w0_wa_CDM', ['true', 'False', 'TRUE'])}
    pars = {'LCDM': ['h', 'ns'], 'w0_wa_CDM': ['h', 'ns', 'w0', 'wa']}
    sums = c.choice('sums', [[], [['WL', 'GCph']]])
    free = c.choice('free', [['h', 'ns', 'w0', 'wa', 'Omm'], ['h', 'ns', 'w0'], ['h']])
    fid = {p: float(k) for k, p in enumerate(['h', 'ns', 'w0', 'wa', 'Omm'])}
    made = []

    class Analysis:
        def __init__(self, **k):
            self.k, self.did = k, []
            self.marginalized_errors, self.relative_marginalized_errors = ('errors', k['cosmology_name']), ('relative', k['cosmology_name'])
            made.append(self)

        def __getattr__(self, n):
            return lambda *a: self.did.append((n,) + a)
    c.stub(FR + ':FisherAnalysis', Analysis)
    with scratch() as d:
        (d / 'r.json').write_text(json.dumps({'cosmologies': {k: {'present': present[k], 'pars': pars[k]} for k in pars}, 'fishers_addends_list': sums, 'plot_settings': {}}))
        r = c.target(FR + ':FisherResultsCollector')(phys_pars=ns(cosmo_pars_fiducials=fid, free_cosmological_parameters={p: 0 for p in free}), analysis_name='x', fishers_dir='/fishers',
                                                     results_config_file=d / 'r.json', do_plots=False)
    there = [k for k in pars if str(present[k]).lower() == 'true']
    c.ensure('present', set(r.cosmologies_dict) == set(there))
    if any(not set(pars[k]) <= set(free) for k in there):
        c.raises('not free', Exception, lambda: r.setUp())
        return
    r.setUp()
    c.ensure('analyses', set(r.analysis_dict) == set(there) and len(made) == len(there))
    for k in there:
        a = r.analysis_dict[k]
        c.ensure('parameters', a.k['cosmology_name'] == k and a.k['cosmo_pars_fiducial'] == {p: fid[p] for p in pars[k]})
        did = [x[0] for x in a.did]
        c.ensure('matrices', ('evaluateFishersFromAddendsList', sums) in a.did if sums else 'useBaseFishers' in did)
        c.ensure('loaded first', did.index('loadBaseFishersFromDir') < did.index('prepareFisherMatrices') < did.index('evaluateMarginalizedErrors'))
    c.ensure('errors', c.and_(r.marg_errs == {k: ('errors', k) for k in there}, r.rel_marg_errs == {k: ('relative', k) for k in there}))


@contract('P26', [RC + '.ResultsCollector.' + f for f in ('__init__', 'buildFisherAnalysesDataFrame', 'collectAndDumpResults', 'loadFisherAnalysesPickle', 'getFisherAnalysesSubDf')],
          mode='bounded', trials=25, bound='up to 3 runs with 3 options each, in any order')
def analyses_of_many_runs(c):
    """every collected analysis stands beside the options of its own run, whatever order they are written in, in memory and in the file
    read back; errors that are missing are computed, others are kept; a selection has the analyses whose options have the values asked for"""
    import pandas as pd
    m = c.choice('runs', [1, 2, 3])
    rc = c.target(RC + ':ResultsCollector')()
    c.ensure('empty', rc.ws_list is None and rc.analyses_df is None)
    opts = [{'n_sp_bins': 4 + 8 * k, 'scenario': c.choice(f'scenario {k}', ['optimistic', 'pessimistic']), 'gcph_minus_gcsp': c.choice(f'minus {k}', [True, False])} for k in range(m)]
    opts = [{n: o[n] for n in c.choice(f'order {k}', [list(p) for p in itertools.permutations(o)])} for k, o in enumerate(opts)]
    names, pars = ['WL', 'GCph'], ['FoM', 'h']
    K = c.target(FA + ':FisherAnalysis')
    v = {(k, kind, n, p): c.real(f'{k}_{kind}_{n}_{p}', positive=True) for k in range(m) for kind in ('marginalized_errors', 'relative_marginalized_errors') for n in names for p in pars}
    table = lambda k, kind: pd.DataFrame([[v[(k, kind, n, p)] for p in pars] for n in names], index=pd.Index(names, name='fisher'), columns=pars)
    absent = {k: c.choice(f'missing {k}', [(), ('marginalized_errors', 'relative_marginalized_errors'), ('relative_marginalized_errors',)]) for k in range(m)}
    asked = []

    def from_rundir(rundir, cosmology=None, res_subdir_name=None, **kw):
        k = int(Path(rundir).name)
        asked.append((k, cosmology, res_subdir_name))
        an = K(cosmo_pars_fiducial={'h': 0.5 + k})
        an.name = f'run {k}'
        for kind in ('marginalized_errors', 'relative_marginalized_errors'):
            setattr(an, kind, None if kind in absent[k] else table(k, kind))
        return an
    c.stub(RC + ':FisherAnalysis', ns(fromRundir=from_rundir))
    evaluated = []

    def absolute(self):
        evaluated.append((self.name, 'absolute'))
        self.marginalized_errors = 'computed'
        self.evaluateRelativeMarginalizedErrors()

    def relative(self):
        evaluated.append((self.name, 'relative'))
        self.relative_marginalized_errors = 'computed'
    c.stub(FA + ':FisherAnalysis.evaluateMarginalizedErrors', absolute)
    c.stub(FA + ':FisherAnalysis.evaluateRelativeMarginalizedErrors', relative)
    cosmology, sub = c.choice('cosmology', ['LCDM', 'w0_wa_CDM']), c.choice('results', ['marg_before', 'marg_after'])

    def beside(t, what):
        c.ensure(what + ' rows', len(t) == m)
        for k, (_, r) in enumerate(t.iterrows()):
            c.ensure(what + ' analysis', r['analysis'].name == f'run {k}' and r['analysis'].cosmo_pars_fiducials == {'h': 0.5 + k})
            for o, value in opts[k].items():
                c.ensure(what + ' options', r[o] == value)
    with scratch() as d:
        rc.ws_list, rc.fcfg_list = [], []
        for k in range(m):
            (d / f'res{k}').mkdir()
            for kind in ('marginalized_errors', 'relative_marginalized_errors'):
                table(k, kind).to_csv(d / f'res{k}' / f'{kind}_run{k}.csv')

            def results(k=k, cosmology='w0_wa_CDM', res_subdir_name='marg_before', **kw):
                asked.append((k, cosmology, res_subdir_name))
                return d / f'res{k}'
            rc.ws_list.append(ns(run_dir=d / str(k), getResultsDir=results))
            rc.fcfg_list.append(ns(synthetic_opts=opts[k]))
        beside(rc.buildFisherAnalysesDataFrame(cosmology=cosmology, res_subdir_name=sub), 'table')
        rc.collectAndDumpResults(d / 'out', cosmology=cosmology, res_subdir_name=sub)
        c.ensure('place', all(a[1:] == (cosmology, sub) for a in asked) and {a[0] for a in asked} == set(range(m)))
        out = d / 'out' / cosmology / sub
        for kind in ('marginalized_errors', 'relative_marginalized_errors'):
            t = pd.read_excel(out / f'{kind}.xlsx')
            c.ensure('file rows', len(t) == m * len(names))
            for i, (_, r) in enumerate(t.iterrows()):
                k = i // len(names)
                for p in pars:
                    c.ensure('file values', abs(r[p] - v[(k, kind, r['fisher'], p)]) <= 1e-12 * abs(r[p]))
                for o, value in opts[k].items():
                    c.ensure('file options', r[o] == value)
        ev = c.choice('evaluate', [True, False])
        rc.loadFisherAnalysesPickle(out / 'fisher_analyses.pickle', **({} if ev else {'eval_marg_errs': False}))
    beside(rc.analyses_df, 'read back')
    for k, an in enumerate(rc.analyses_df['analysis']):
        for kind in ('marginalized_errors', 'relative_marginalized_errors'):
            t = getattr(an, kind)
            if kind in absent[k]:
                c.ensure('computed', isinstance(t, str) if ev else t is None)
            else:
                c.ensure('kept', not isinstance(t, str) and all(t.loc[n, p] == v[(k, kind, n, p)] for n in names for p in pars))
    ks = c.choice('selected', list(range(m)))
    by = c.choice('by', [list(x) for n in (1, 2) for x in itertools.combinations(['n_sp_bins', 'scenario', 'gcph_minus_gcsp'], n)])
    sel = {o: opts[ks][o] for o in by}
    t = rc.getFisherAnalysesSubDf(dict(sel))
    c.ensure('selection', [a.name for a in t['analysis']] == [f'run {k}' for k in range(m) if all(opts[k][o] == x for o, x in sel.items())])


@contract('P26', [TH + '.write_latex_table', 'seyfert.utils.tex_utils.TeXTranslator.transformRawTeXTable'], mode='bounded', trials=40, bound='random tables of up to 3 rows and 5 columns')
def latex_table(c):
    """a table in LaTeX has the rows of the table in their order, each with its values to the digits of their columns, under the names of
    the columns; it is written to the file, and returned, when asked"""
    import re
    import pandas as pd
    n = c.choice('rows', [1, 2, 3])
    names = ['WL', 'GCph', 'GCsp'][:n]
    cols = c.choice('columns', [['FoM', 'h'], ['h', 'Omm', 'FoM'], ['FoM', 'Delta FoM', 'Delta FoM (%)', 'w0', 'ns']])
    v = {(k, p): c.real(f'v_{k}_{p}', conc=(-20, 20)) if 'Delta' in p else c.real(f'v_{k}_{p}', positive=True) for k in range(n) for p in cols}
    bins = [4, 12, 40][:n]
    df = pd.DataFrame([[v[(k, p)] for p in cols] for k in range(n)], columns=cols, index=pd.MultiIndex.from_arrays([names, bins], names=['fisher', 'n_sp_bins']))
    before = df.copy()
    with scratch() as d:
        to_file, ret = c.choice('file', [True, False]), c.choice('text', [True, False])
        text = c.target(TH + ':write_latex_table')(df, filepath=(d / 't.tex') if to_file else None, ret_text=ret)
        c.ensure('returned', (text is not None) == ret and (not ret or isinstance(text, str)))
        c.ensure('written', (d / 't.tex').exists() == to_file)
        if to_file:
            if ret:
                c.ensure('same text', (d / 't.tex').read_text() == text)
            text = (d / 't.tex').read_text()
    c.ensure('left', df.equals(before))
    if text is None:
        return
    tex = {'WL': r'\WL', 'GCph': r'\GCph', 'GCsp': r'\GCsp', 'FoM': r'\FoM', 'h': r'\h', 'Omm': r'\Omm', 'w0': r'\wz', 'ns': r'\ns', 'Delta FoM': r'Delta \FoM', 'Delta FoM (%)': r'Delta \FoM (\%)'}
    body = [[x.strip() for x in l.rstrip().rstrip('\\').split('&')] for l in text.splitlines() if '&' in l]
    c.ensure('lines', len(body) == n + 2)
    c.ensure('columns', body[0][2:] == [tex[p] for p in cols])
    for k in range(n):
        row = body[k + 2]
        c.ensure('name', row[0] == tex[names[k]] and row[1] == str(bins[k]))
        for p, cell in zip(cols, row[2:]):
            x = v[(k, p)]
            if p in ('Delta FoM', 'Delta FoM (%)'):
                if p == 'Delta FoM (%)' and cell == r'\text{--}':
                    c.ensure('no change', abs(x) < 0.005001)
                    continue
                mt = re.fullmatch(r'(?:\\(positive|negative)\{)?([+-]\d+\.\d\d)(\\%\})?', cell)
                c.ensure('change', mt is not None)
                c.ensure('change', abs(float(mt.group(2)) - x) <= 0.005001 and (mt.group(2)[0] == '-') == (x < 0))
                c.ensure('marked', mt.group(1) == ((('negative' if x < 0 else 'positive')) if '%' in p else None))
            else:
                digits = 2 if p == 'FoM' else 4
                c.ensure('value', cell == f'%.{digits}f' % x)
        c.ensure('cells', len(row) == 2 + len(cols))


@contract('P26', [TH + '.write_excel_table', TH + '.load_and_setup_table'], mode='bounded', trials=25, bound='random tables of up to 2 scenarios, 3 numbers of bins and 3 matrices')
def excel_table(c):
    """a table written is the table read back, with the rows of the spectroscopic power spectrum those of the case with four bins; an
    existing file is replaced only when asked"""
    import pandas as pd
    fishers = c.choice('matrices', [['WL', '[GCph+WL+XC] + [GCsp(Pk)]'], ['GCsp(Pk)', 'GCsp', 'WL']])
    df, want = runs_table(c, fishers, c.choice('bins', [[4], [4, 12], [12, 4, 24]]), c.choice('scenarios', [['optimistic'], ['optimistic', 'pessimistic']]))
    df = df.reset_index(drop=True)
    before = df.copy()
    write = c.target(TH + ':write_excel_table')
    with scratch() as d:
        f = d / 'errors.xlsx'
        if c.choice('there', [True, False]):
            f.write_bytes(b'old')
            c.raises('exists', FileExistsError, lambda: write(df, f))
            c.ensure('kept', f.read_bytes() == b'old')
            write(df, f, overwrite=True, index=False)
        else:
            write(df, f, index=False)
        t = pd.read_excel(f)
        c.ensure('columns', list(t.columns) == list(df.columns))
        c.ensure('rows', len(t) == len(df))
        for i in range(len(df)):
            for p in df.columns:
                x, y = df.loc[i, p], t.loc[i, p]
                c.ensure('values', abs(x - y) <= 1e-12 * abs(x) if isinstance(x, float) else x == y)
        c.ensure('left', df.equals(before))
        t = c.target(TH + ':load_and_setup_table')(f)
    c.ensure('rows', len(t) == len(df))
    for _, r in t.iterrows():
        src = want[(r['fisher'], 4 if 'GCsp(Pk)' in r['fisher'] else r['n_sp_bins'], r['scenario'])]
        for p in ('FoM', 'h'):
            c.ensure('set up', abs(r[p] - src[p]) <= 1e-12 * abs(src[p]))


@contract('P26', [LH + '.load_fisher_analyses_for_scenario', LH + '.invert_fishers_and_compute_errors', LH + '.invert_fishers_in_all_analyses', NM + '.get_subset_analyses_for_fishers', NM + '.remove_spaces'],
          mode='bounded', trials=40, bound='up to 4 numbers of bins')
def analyses_of_a_scenario(c):
    """the analysis kept for a number of bins is the one of its run, with the settings asked for; every analysis is inverted before its
    errors are computed; subsets have the matrices asked for"""
    nbins = c.choice('bins', [[4], [12, 4], [40, 24, 4, 12]])
    sub = c.choice('subtracted', [True, False])
    scenario = c.choice('scenario', ['optm', 'pess'])
    kw = c.choice('settings', [{}, {'cosmology': 'LCDM'}, {'cosmology': 'LCDM', 'res_subdir_name': 'marg_after'}])
    did = []

    class Analysis:
        def __init__(self, where, names=('WL', 'GCph')):
            self.where, self.names, self.done = where, names, []

        def prepareFisherMatrices(self):
            self.done.append('inverted')

        def evaluateMarginalizedErrors(self):
            self.done.append('errors')

        def evaluateRelativeMarginalizedErrors(self):
            self.done.append('relative')

        def getSubsetAnalysis(self, fisher_names, recompute_errs=False):
            return Analysis(self.where, tuple(fisher_names))

    def from_rundir(rundir, **k):
        did.append((Path(rundir).name, k))
        return Analysis(Path(rundir).name)
    c.stub(LH + ':FisherAnalysis', ns(fromRundir=from_rundir))
    with scratch() as d:
        for sc, nb in itertools.product(('optm', 'pess'), nbins):
            (d / f'{sc}_{nb}_sp_bins_today').mkdir()
            (d / f'{sc}_{nb}_sp_bins_gcph_minus_gcsp').mkdir()
        ans = c.target(LH + ':load_fisher_analyses_for_scenario')(scenario, gcph_sub_flag=sub, base_dir=d, **kw)
    tag = 'gcph_minus_gcsp' if sub else 'today'
    c.ensure('analyses', {k: a.where for k, a in ans.items()} == {nb: f'{scenario}_{nb}_sp_bins_{tag}' for nb in nbins})
    c.ensure('settings', len(did) == len(nbins) and all(k == kw for _, k in did))
    c.target(LH + ':invert_fishers_in_all_analyses')(ans)
    for a in ans.values():
        c.ensure('computed', sorted(set(a.done)) == ['errors', 'inverted', 'relative'] and a.done[0] == 'inverted' and a.done.index('errors') < a.done.index('relative'))
    got = c.target(NM + ':get_subset_analyses_for_fishers')(ans, ['[WL + GCph]', 'WL', ' GCph'])
    c.ensure('subsets', set(got) == set(nbins))
    for nb, a in got.items():
        c.ensure('subset', a.where == ans[nb].where and a.names == ('[WL+GCph]', 'WL', 'GCph'))
        c.ensure('subset computed', a.done[0] == 'inverted' and 'errors' in a.done)


@contract('P26', [A + f for f in ('__init__', 'sliceFishers', 'sliceBaseFishers', 'prepareFisherMatrices', 'loadBaseFishersFromDir', 'fromRundir')], weight=2)
def nuisance_left_out(c):
    """an analysis that does not marginalise over the nuisance parameters keeps them fixed in every matrix it is given, reads or
    prepares; one that does keeps their rows"""
    names = c.choice('matrices', [('A',), ('B', 'C')])
    keep = c.choice('marginalised', [True, False])
    how = c.choice('how', ['given', 'read', 'prepared', 'base'])
    ms = matrices(c, names)
    given = {n: m for n, (m, v) in ms.items()}
    K = c.target(FA + ':FisherAnalysis')
    with scratch() as d:
        if how == 'given':
            got = K(fisher_matrices=c.choice('as', ['list', 'dictionary']) == 'list' and list(given.values()) or given, marginalize_nuisance=keep).fisher_matrices
        elif how == 'read':
            for m in given.values():
                m.writeToFile(outdir=d)
            r = K(marginalize_nuisance=keep)
            r.loadBaseFishersFromDir(d)
            got = r.base_fishers
        else:
            r = K(marginalize_nuisance=keep)
            for m in given.values():
                m.marginalize_nuisance = keep
            if how == 'base':
                r.base_fishers = given
                r.sliceBaseFishers()
                got = r.base_fishers
            else:
                r.fisher_matrices = given
                c.patch(FM + ':FisherMatrix.evaluateInverse', lambda self: None)
                c.patch(FM + ':FisherMatrix.evaluateCorrelationMatrix', lambda self: None)
                if not c.sym:
                    for n, (m, v) in ms.items():
                        m.evaluateInverse = m.evaluateCorrelationMatrix = lambda: None
                r.prepareFisherMatrices()
                got = r.fisher_matrices
    c.ensure('names', set(got) == set(names))
    for n in names:
        cosmo, nuis = SETS[n]
        labels_are(c, got[n], cosmo, nuis if keep else [])
        o = sorted(list(cosmo) + (list(nuis) if keep else []))
        for a in o:
            for b in o:
                c.ensure('entries', c.eq(got[n].matrix.loc[a, b], ms[n][1][(a, b)]))
