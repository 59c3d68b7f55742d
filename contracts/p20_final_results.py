"""A posteriori combinations and final results: matrices combined as their names say, in the stated order of operations."""
import tempfile
from pathlib import Path
from types import SimpleNamespace
from pyver.api import contract
from contracts.p06_fisher_algebra import fisher, unchanged, labels_are

FR = 'seyfert.fisher.final_results_core'
FM = 'seyfert.fisher.fisher_matrix'
OPER = {'A': (['h', 'w0'], ['b1']), 'B': (['w0', 'h'], ['b2']), '[WL+XC]': (['h'], []), 'A+B+XC': (['h', 'w0'], ['b1', 'b2'])}
COMBS = ['A + B', 'A - B', 'A + B - [WL+XC]', 'A - B + [WL+XC]', '[WL+XC] + A+B+XC', 'A+B+XC - A - B', 'A + A', 'A', 'A+B+XC']


def table(v, labels, default=0):
    return {(a, b): v.get((a, b), default) for a in labels for b in labels}


@contract('P20', [FR + '._compute_a_posteriori_fisher_comb_from_name', FR + '.evaluate_a_posteriori_fisher_combinations'], weight=2)
def combinations(c):
    """'X + Y - Z' is the label-wise combination evaluated left to right; names may themselves contain + and - without blanks"""
    name = c.choice('combination', COMBS)
    Fs, vs = {}, {}
    for k, (cosmo, nuis) in OPER.items():
        Fs[k], vs[k] = fisher(c, k, cosmo, nuis)
    first = list(Fs)
    c.target(FR + ':evaluate_a_posteriori_fisher_combinations')(Fs, post_fishers_names=[name])
    parts = name.split(' ')
    terms = [(1, parts[0])] + [((1 if parts[q] == '+' else -1), parts[q + 1]) for q in range(1, len(parts), 2)]
    cosmo = set().union(*[set(OPER[k][0]) for _, k in terms])
    nuis = set().union(*[set(OPER[k][1]) for _, k in terms])
    c.ensure('keys', set(Fs) == set(first) | {name})
    R = Fs[name]
    labels_are(c, R, cosmo, nuis, 'result.')
    for a in sorted(cosmo | nuis):
        for b in sorted(cosmo | nuis):
            c.ensure('entries', c.eq(R.matrix.loc[a, b], sum(s * vs[k].get((a, b), 0) for s, k in terms)))
    for k, (co, nu) in OPER.items():
        if k != name:
            unchanged(c, Fs[k], co + nu, vs[k], co, nu, 'operand.')


@contract('P20', [FR + '.evaluate_a_posteriori_fisher_combinations', FR + '._compute_a_posteriori_fisher_comb_from_name'])
def several_combinations(c):
    """each is evaluated from the matrices present (earlier results included); those with an absent operand are skipped"""
    A, va = fisher(c, 'A', ['h'], ['b1'])
    B, vb = fisher(c, 'B', ['h'], [])
    Fs = {'A': A, 'B': B}
    names = c.choice('names', [['A + Z', 'A + B'], ['A - B', 'Z - A', 'Z'], ['A + B', 'A + B + Q']])
    c.target(FR + ':evaluate_a_posteriori_fisher_combinations')(Fs, post_fishers_names=list(names))
    made = {'A + B': 1, 'A - B': -1}
    c.ensure('keys', set(Fs) == {'A', 'B'} | {n for n in names if n in made})
    for n in names:
        if n in made:
            for a in ('h', 'b1'):
                for b in ('h', 'b1'):
                    c.ensure('entries', c.eq(Fs[n].matrix.loc[a, b], va[(a, b)] + made[n] * vb.get((a, b), 0)))
    unchanged(c, A, ['h', 'b1'], va, ['h'], ['b1'], 'A.')
    unchanged(c, B, ['h'], vb, ['h'], [], 'B.')


class OutDir:
    """stands for the output directory (the two writers are replaced in the symbolic run)"""

    def __truediv__(self, k):
        return self

    def mkdir(self, *a, **k):
        pass


@contract('P20', [FR + '.create_results_for_cosmology', FR + '.get_free_cosmo_pars_for_cosmology',
                  'seyfert.fisher.fisher_analysis.FisherAnalysis.evaluateMarginalizedErrors'], weight=3)
def results_of_one_cosmology(c):
    """parameters outside the cosmology are fixed first; then nuisance parameters are fixed, or marginalised before the
    combinations, or marginalised only in the errors of the combinations; the given matrices are left unchanged"""
    cosmology = c.choice('cosmology', ['LCDM', 'w0_wa_CDM'])
    mode = c.choice('nuisance', ['before', 'after', 'fixed'])
    comb = c.choice('combination', ['A + B', 'A - B'])
    cosmo = ['h', 'w0', 'wa']
    own = {'A': ['b1'], 'B': ['b1', 'b2']}
    va, vb = c.pd_matrix('A', cosmo + own['A']), c.pd_matrix('B', cosmo + own['B'])
    pd = c.target(FM + ':pd')
    ms = {}
    for n, v in (('A', va), ('B', vb)):
        o = cosmo + own[n]
        ms[n] = c.target(FM + ':FisherMatrix')(matrix_df=pd.DataFrame([[v[(a, b)] for b in o] for a in o], index=o, columns=o),
                                               name=n, cosmological_parameters=cosmo, nuisance_parameters=own[n])
    fid = {p: c.real('fiducial_' + p) for p in cosmo}
    free = ['h'] if cosmology == 'LCDM' else cosmo
    f = {n: table(v, free + own[n]) for n, v in (('A', va), ('B', vb))}
    nuis = {n: list(own[n]) for n in own}
    if mode == 'fixed':
        f = {n: table(v, free) for n, v in f.items()}
        nuis = {n: [] for n in own}
    elif mode == 'before':
        f = {n: c.inverse(table(c.inverse(v, free + own[n]), free), free) for n, v in f.items()}
        nuis = {n: [] for n in own}
    s = 1 if comb == 'A + B' else -1
    both = free + sorted(set(nuis['A']) | set(nuis['B']))
    f[comb] = {(a, b): f['A'].get((a, b), 0) + s * f['B'].get((a, b), 0) for a in both for b in both}
    inv = {n: c.inverse(v, free + nuis[n] if n in nuis else both) for n, v in f.items()}
    for n in inv:
        c.require(c.and_(*[inv[n][(p, p)] > 0 for p in free]))
        if len(free) > 1:
            c.require(inv[n][('w0', 'w0')] * inv[n][('wa', 'wa')] - inv[n][('w0', 'wa')] * inv[n][('wa', 'w0')] > 1e-6)
    an = 'seyfert.fisher.fisher_analysis:FisherAnalysis.'
    c.patch(an + 'saveFishersToDisk', lambda *a, **k: None)
    c.patch(an + 'writeAbsoluteAndRelativeMarginalizedErrors', lambda *a, **k: None)
    with c.scratch_dir(OutDir()) as out:
        r = c.target(FR + ':create_results_for_cosmology')(ms, cosmology, SimpleNamespace(free_cosmo_pars_fiducials=dict(fid)), [comb], out,
                                                           marg_nuis_before=(mode != 'after'), fix_nuisance=(mode == 'fixed'), metadata=None)
    c.ensure('matrices', set(r.fisher_matrices) == {'A', 'B', comb})
    for n in inv:
        m = r.fisher_matrices[n]
        lab = free + (nuis[n] if n in nuis else both[len(free):])
        labels_are(c, m, free, lab[len(free):], 'result.')
        for a in lab:
            for b in lab:
                c.ensure('entries', c.eq(m.matrix.loc[a, b], f[n][(a, b)]))
        for p in free:
            c.ensure('errors', c.eq(r.marginalized_errors.loc[n, p], c.sqrt(inv[n][(p, p)])))
    c.ensure('error columns', set(r.marginalized_errors.columns) == set(free) | ({'FoM'} if len(free) > 1 else set()))
    for n, v in (('A', va), ('B', vb)):
        unchanged(c, ms[n], cosmo + own[n], v, cosmo, own[n], 'given.')


@contract('P20', [FR + '.create_final_results', 'seyfert.fisher.fisher_utils.load_a_posteriori_fisher_comb_names'], weight=1)
def results_of_a_run(c):
    """the final results of a run are those of all its stored matrices, under their own names, for both cosmologies and each of the three
    treatments of nuisance parameters, with the listed combinations"""
    overwrite = c.choice('overwrite', [None, False, True])
    metadata = c.choice('metadata', [{'scenario': 'x'}, {}])
    files = c.choice('files', [['fisher_A.hdf5', 'fisher_A+B+XC.hdf5', 'fisher_[WL+XC].hdf5'], ['fisher_A.hdf5'], []])
    calls, params = [], SimpleNamespace(free_cosmo_pars_fiducials={})
    with tempfile.TemporaryDirectory(prefix='pyver') as d:
        d = Path(d)
        base = d / 'base_fishers'
        base.mkdir()
        for f in files + ['notes.txt', 'fisher_C.txt']:
            (base / f).write_text('')
        ws = SimpleNamespace(run_dir=d, base_fishers_dir=base, getParamsCollection=lambda: params, getRunMetadata=lambda: metadata)
        c.stub(FR + ':WorkSpace', lambda run_dir: ws if Path(run_dir) == d else None)
        matrices = {}

        def read(file, root='/'):
            return matrices.setdefault(Path(file).name, SimpleNamespace(name='of ' + Path(file).name, inverse=None))
        c.stub(FR + ':FisherMatrix.fromHDF5', read)
        c.stub(FR + ':fu.load_a_posteriori_fisher_comb_names', lambda: ['A + B'])

        def one(fisher_matrices, cosmology, params, post_fishers_names, main_outdir, marg_nuis_before=True, fix_nuisance=False, overwrite=False, metadata=None):
            calls.append(((cosmology, 'fixed' if fix_nuisance else 'before' if marg_nuis_before else 'after'), dict(fisher_matrices), params, list(post_fishers_names),
                          Path(main_outdir), bool(overwrite), metadata))
        c.stub(FR + ':create_results_for_cosmology', one)
        c.target(FR + ':create_final_results')(c.choice('run', [d, str(d)]), 'final', **({} if overwrite is None else {'overwrite': overwrite}))
        c.ensure('each once', sorted(x[0] for x in calls) == sorted((k, t) for k in ('LCDM', 'w0_wa_CDM') for t in ('before', 'after', 'fixed')))
        for x in calls:
            c.ensure('all matrices', sorted(x[1]) == sorted('of ' + f for f in files) and all(x[1]['of ' + f] is matrices[f] for f in files))
            c.ensure('of this run', x[2] is params and x[3] == ['A + B'] and x[4] == d / 'final' and x[5] == bool(overwrite) and (x[6] or {}) == metadata)
            c.ensure('directory', (d / 'final').is_dir())


@contract('P20', [FR + '.create_final_results', FR + '.create_results_for_cosmology', FR + '.evaluate_a_posteriori_fisher_combinations'], mode='bounded', trials=3,
          bound='random matrices of up to 8 parameters, real files')
def final_files(c):
    """the files written for each cosmology and treatment hold the errors of the matrices so treated"""
    import numpy as np
    import pandas as pd
    par = c.target('seyfert.cosmology.parameter:PhysicalParameter')
    fid = {'Omm': 0.32, 'h': 0.67, 'w0': -1., 'wa': 0.}
    own = {'WL': ['aIA'], '[WL+GCph+XC(WL,GCph)]': ['aIA', 'bgph0', 'bgph1'], 'GCsp(Pk)': []}
    combs = ['WL + GCsp(Pk)', '[WL+GCph+XC(WL,GCph)] + GCsp(Pk) - WL', 'WL + absent']
    params = c.target('seyfert.cosmology.parameter:PhysicalParametersCollection')()
    params.update({k: par(name=k, fiducial=v, kind=par.COSMO_PAR_STRING, current_value=v, is_free_parameter=True) for k, v in fid.items()})
    F = {}
    for k, o in own.items():
        lab = list(fid) + o
        a = c.array('F' + k, (len(lab), len(lab)))
        F[k] = pd.DataFrame(a @ a.T + 3 * np.eye(len(lab)), index=lab, columns=lab)
    with tempfile.TemporaryDirectory(prefix='pyver') as d:
        d = Path(d)
        (d / 'base_fishers').mkdir()
        for i, (k, m) in enumerate(F.items()):
            x = c.target(FM + ':FisherMatrix')(matrix_df=m.copy(), name=k, cosmological_parameters=set(fid), nuisance_parameters=set(own[k]))
            x.writeToFile(outfile=d / 'base_fishers' / f'fisher_{i}.hdf5')
        c.stub(FR + ':WorkSpace', lambda p: SimpleNamespace(run_dir=d, base_fishers_dir=d / 'base_fishers', getParamsCollection=lambda: params, getRunMetadata=lambda: {}))
        c.stub(FR + ':fu.load_a_posteriori_fisher_comb_names', lambda: combs)
        c.target(FR + ':create_final_results')(d, 'out')
        for cosmology, free in (('LCDM', ['Omm', 'h']), ('w0_wa_CDM', list(fid))):
            for sub in ('marg_before', 'marg_after', 'nuis_fixed'):
                M = {}
                for k, m in F.items():
                    lab = free + ([] if sub == 'nuis_fixed' else own[k])
                    m = m.loc[lab, lab]
                    if sub == 'marg_before':
                        i = pd.DataFrame(np.linalg.inv(m.values), index=lab, columns=lab).loc[free, free]
                        m = pd.DataFrame(np.linalg.inv(i.values), index=free, columns=free)
                    M[k] = m

                def total(*terms):
                    lab = sorted(set().union(*[M[k].index for _, k in terms]))
                    return sum(s * M[k].reindex(index=lab, columns=lab, fill_value=0.) for s, k in terms)
                M[combs[0]] = total((1, 'WL'), (1, 'GCsp(Pk)'))
                M[combs[1]] = total((1, '[WL+GCph+XC(WL,GCph)]'), (1, 'GCsp(Pk)'), (-1, 'WL'))
                where = d / 'out' / cosmology / sub
                tabs = {('relative' in f.name): pd.read_csv(f, index_col=0) for f in where.glob('*.csv') if 'marginalized_errors' in f.name}
                for rel in (False, True):
                    t = tabs[rel]
                    c.ensure('matrices', sorted(t.index) == sorted(M))
                    for k, m in M.items():
                        cov = pd.DataFrame(np.linalg.inv(m.values), index=m.index, columns=m.index)
                        for p in free:
                            v = cov.loc[p, p]
                            if v > 1e-6 and np.isfinite(t.loc[k, p]):
                                c.ensure('errors', abs(t.loc[k, p] / (np.sqrt(v) / (abs(fid[p]) if rel and fid[p] else 1)) - 1) < 1e-5)
                            else:
                                c.ensure('no error', v < 1e-6)
