"""Fixing, marginalising, priors, errors, correlations: any sequence keeps labels, values and reported errors consistent.

Sequences are covered by an invariant: a Fisher matrix object is *consistent* when its labels are its parameters and its stored
inverse, if any, is the inverse of its matrix with the same labels.  Every operation is shown to take every consistent state to a
consistent one with the specified matrix, whichever order rows and inverse are in; every report is shown right in every
consistent state."""
from pyver.api import contract
from contracts.p06_fisher_algebra import labels_are

FM = 'seyfert.fisher.fisher_matrix'
F = FM + '.FisherMatrix.'
FA = 'seyfert.fisher.fisher_analysis'

LABELS = [(['w0', 'wa', 'h'], ['b1']), (['h', 'w0'], ['b2', 'b1']), (['wa', 'ns', 'w0'], []), (['h'], [])]


def state(c, with_inverse=None):
    """an arbitrary consistent state: rows in any of several orders, inverse absent or stored in another order"""
    cosmo, nuis = c.choice('parameters', LABELS)
    labels = cosmo + nuis
    rows = {'declared': labels, 'sorted': sorted(labels), 'reversed': sorted(labels)[::-1]}[
        c.choice('row_order', ['declared', 'sorted', 'reversed'])]
    v = c.pd_matrix('F', labels)
    pd = c.target(FM + ':pd')
    table = lambda d, o: pd.DataFrame([[d[(a, b)] for b in o] for a in o], index=list(o), columns=list(o))
    m = c.target(FM + ':FisherMatrix')(matrix_df=table(v, rows), name='A', cosmological_parameters=cosmo, nuisance_parameters=nuis)
    inv = c.choice('stored_inverse', ['absent', 'same order', 'other order'] if with_inverse is None else with_inverse)
    if inv != 'absent':
        o = rows if inv == 'same order' else rows[1:] + rows[:1]
        m.inverse = table(c.inverse(v, labels), o)
    return m, v, cosmo, nuis


def consistent(c, m, v, cosmo, nuis, what):
    labels = sorted(set(cosmo) | set(nuis))
    labels_are(c, m, cosmo, nuis, what)
    for a in labels:
        for b in labels:
            c.ensure(what + 'entries', c.eq(m.matrix.loc[a, b], v[(a, b)]))
    if m.inverse is not None:
        w = c.inverse(v, labels)
        c.ensure(what + 'inverse.labels', set(m.inverse.index) == set(labels) and set(m.inverse.columns) == set(labels))
        for a in labels:
            for b in labels:
                c.ensure(what + 'inverse', c.eq(m.inverse.loc[a, b], w[(a, b)]))


def drop(c, labels):
    opts = [[], [labels[0]], [labels[-1]], [labels[0], labels[-1]], labels[1:]]
    return c.choice('dropped', [o for o in opts if len(set(o)) < len(labels)])


@contract('P07', [F + 'fixParameters'], weight=2)
def fixing_drops_rows_and_columns(c):
    m, v, cosmo, nuis = state(c)
    gone = set(drop(c, cosmo + nuis))
    m.fixParameters(gone)
    consistent(c, m, v, [p for p in cosmo if p not in gone], [p for p in nuis if p not in gone], 'after.')
    labels = [p for p in cosmo + nuis if p not in gone]
    if labels:
        errs = m.getMarginalizedErrors(fom=False, only_cosmo=False)
        w = c.inverse(v, labels)
        for p in labels:
            c.ensure('errors', c.eq(errs.loc[p], c.sqrt(w[(p, p)])))


@contract('P07', [F + 'fixParameters', F + 'marginalizeParameters'])
def unknown_parameters_rejected(c):
    m, v, cosmo, nuis = state(c)
    op = c.choice('operation', ['fix', 'marginalise'])
    c.raises('rejected', Exception, lambda: (m.fixParameters if op == 'fix' else m.marginalizeParameters)({'zz'}))
    consistent(c, m, v, cosmo, nuis, 'after.')


@contract('P07', [F + 'marginalizeParameters', F + 'evaluateInverse', F + 'copy', 'seyfert.fisher.fisher_utils.invert_dataframe'], weight=2)
def marginalising_drops_from_the_inverse(c):
    m, v, cosmo, nuis = state(c)
    gone = set(drop(c, cosmo + nuis))
    copy = c.choice('copy', [True, False])
    r = m.marginalizeParameters(gone, ret_copy=copy)
    keep = [p for p in cosmo + nuis if p not in gone]
    cov = c.inverse(v, cosmo + nuis)
    if copy:
        consistent(c, m, v, cosmo, nuis, 'original.')
    else:
        c.ensure('in place', r is None)
        r = m
    if keep:
        consistent(c, r, c.inverse(cov, keep), [p for p in cosmo if p not in gone], [p for p in nuis if p not in gone], 'after.')
        errs = r.getMarginalizedErrors(fom=False, only_cosmo=False)
        for p in keep:
            c.ensure('errors unchanged by marginalising', c.eq(errs.loc[p], c.sqrt(cov[(p, p)])))
    c.ensure('name', r.name == 'A')


@contract('P07', [F + 'marginalizeNuisance', F + 'marginalizeParameters'])
def marginalising_nuisance(c):
    m, v, cosmo, nuis = state(c)
    flag, copy = c.choice('flag', [True, False]), c.choice('copy', ['as usual', True, False])
    m.marginalize_nuisance = flag
    r = m.marginalizeNuisance() if copy == 'as usual' else m.marginalizeNuisance(ret_copy=copy)
    if not flag:
        consistent(c, m, v, cosmo, nuis, 'untouched.')
        if copy:
            consistent(c, r, v, cosmo, nuis, 'copy.')
        return
    if copy:
        consistent(c, m, v, cosmo, nuis, 'original.')
    consistent(c, r if copy else m, c.inverse(c.inverse(v, cosmo + nuis), cosmo), cosmo, [], 'after.')


@contract('P07', [F + 'addPriorToParameters'], weight=2)
def priors_add_to_the_diagonal(c):
    m, v, cosmo, nuis = state(c)
    labels = cosmo + nuis
    which = c.choice('prior_on', [[labels[0]], labels, []])
    frac = c.real('fraction', positive=True)
    fid = {p: c.real('fiducial_' + p, positive=True) for p in which}
    m.addPriorToParameters(dict(fid), frac)
    new = dict(v)
    for p in which:
        new[(p, p)] = v[(p, p)] + c.div(1, (frac * fid[p]) * (frac * fid[p]))
    consistent(c, m, new, cosmo, nuis, 'after.')
    errs = m.getMarginalizedErrors(fom=False, only_cosmo=False)
    w = c.inverse(new, labels)
    for p in labels:
        c.ensure('errors', c.eq(errs.loc[p], c.sqrt(w[(p, p)])))


@contract('P07', [F + 'selectRelevantFisherSubMatrix'], weight=2)
def selecting_the_declared_parameters(c):
    """slicing to the declared parameters: nuisance ones kept or (flag off) fixed"""
    m, v, cosmo, nuis = state(c)
    labels = cosmo + nuis
    undeclared = c.choice('undeclared', [[], [cosmo[-1]]])
    if len(cosmo) == 1 and undeclared:
        undeclared = []
    m._cosmological_parameters = m.cosmological_parameters - set(undeclared)
    m.marginalize_nuisance = c.choice('flag', [True, False])
    m.selectRelevantFisherSubMatrix()
    keep = [p for p in cosmo if p not in undeclared]
    kn = nuis if m.marginalize_nuisance else []
    consistent(c, m, v, keep, kn, 'after.')
    errs = m.getMarginalizedErrors(fom=False, only_cosmo=False)
    w = c.inverse(v, keep + kn)
    for p in keep + kn:
        c.ensure('errors', c.eq(errs.loc[p], c.sqrt(w[(p, p)])))


@contract('P07', [F + 'getMarginalizedErrors', F + 'getParameterSigma', F + 'getFigureOfMerit', F + 'evaluateInverse'], weight=2)
def marginalised_errors(c):
    """errors = square root of the diagonal of the inverse, by label; figure of merit = 1/sqrt(det of the (w0, wa) block)"""
    m, v, cosmo, nuis = state(c)
    fom, only = c.choice('fom', [True, False]), c.choice('only_cosmo', [True, False])
    w = c.inverse(v, cosmo + nuis)
    if 'w0' in cosmo and 'wa' in cosmo:
        det = w[('w0', 'w0')] * w[('wa', 'wa')] - w[('w0', 'wa')] * w[('wa', 'w0')]
        c.require(det > 0)      # a principal minor of a positive definite matrix
    e = m.getMarginalizedErrors(fom=fom, only_cosmo=only)
    labels = cosmo if only else cosmo + nuis
    has = fom and 'w0' in labels and 'wa' in labels
    c.ensure('labels', sorted(e.index) == sorted(labels + (['FoM'] if has else [])))
    c.ensure('name', e.name == 'A')
    for p in labels:
        c.ensure('error', c.eq(e.loc[p], c.sqrt(w[(p, p)])))
        c.ensure('sigma', c.eq(m.getParameterSigma(p), c.sqrt(w[(p, p)])))
    if has:
        c.ensure('figure of merit', c.eq(e.loc['FoM'], c.div(1, c.sqrt(det))))
        c.ensure('figure of merit, any order', c.eq(m.getFigureOfMerit('wa', 'w0'), c.div(1, c.sqrt(det))))
    consistent(c, m, v, cosmo, nuis, 'after.')


@contract('P07', [F + 'getUnmarginalizedErrors'])
def unmarginalised_errors(c):
    m, v, cosmo, nuis = state(c)
    only = c.choice('only_cosmo', [True, False])
    e = m.getUnmarginalizedErrors(only_cosmo=only)
    labels = cosmo if only else cosmo + nuis
    c.ensure('labels', sorted(e.index) == sorted(labels))
    for p in labels:
        c.ensure('error', c.eq(e.loc[p], c.div(1, c.sqrt(v[(p, p)]))))


@contract('P07', [F + 'evaluateCorrelationMatrix'], weight=2)
def correlations(c):
    """correlation of a, b = inverse[a, b] / (error of a * error of b), for the cosmological parameters"""
    m, v, cosmo, nuis = state(c, ['same order', 'other order'])
    m.evaluateCorrelationMatrix()
    w = c.inverse(v, cosmo + nuis)
    c.ensure('labels', set(m.correlation.index) == set(cosmo) and set(m.correlation.columns) == set(cosmo))
    for a in cosmo:
        for b in cosmo:
            c.ensure('coefficient', c.eq(m.correlation.loc[a, b] * (c.sqrt(w[(a, a)]) * c.sqrt(w[(b, b)])), w[(a, b)]))
    consistent(c, m, v, cosmo, nuis, 'after.')


@contract('P07', [F + 'fixParameters', F + 'marginalizeParameters', F + 'addPriorToParameters', F + 'evaluateInverse',
                  F + 'evaluateCorrelationMatrix'], weight=2)
def no_stale_correlation(c):
    """after an operation that changes the matrix no correlation table of the previous one is left behind"""
    m, v, cosmo, nuis = state(c, ['same order'])
    if len(cosmo) == 1:
        return
    m.evaluateCorrelationMatrix()
    op = c.choice('operation', ['fix', 'marginalise', 'prior'])
    if op == 'fix':
        m.fixParameters({cosmo[0]})
    elif op == 'marginalise':
        m.marginalizeParameters({cosmo[0]}, ret_copy=False)
    else:
        m.addPriorToParameters({cosmo[0]: c.real('fid', positive=True)}, 0.5)
    if m.correlation is None:
        c.ensure('dropped', True)
        return
    left = sorted(m.matrix.index)
    w = c.inverse({(a, b): m.matrix.loc[a, b] for a in left for b in left}, left)
    cs = [p for p in left if p in cosmo]
    c.ensure('labels', set(m.correlation.index) == set(cs))
    for a in cs:
        for b in cs:
            c.ensure('coefficient', c.eq(m.correlation.loc[a, b] * (c.sqrt(w[(a, a)]) * c.sqrt(w[(b, b)])), w[(a, b)]))


SETUPS = [[('A', ['h', 'w0', 'wa'], [])], [('A', ['h', 'w0'], []), ('B', ['w0', 'h'], ['b1'])],
          [('B', ['wa', 'h', 'w0'], ['b1', 'b2']), ('A', ['h', 'w0', 'wa'], [])]]


def analysis(c):
    pd = c.target(FM + ':pd')
    setup = c.choice('matrices', SETUPS)
    Fs, vs = {}, {}
    for name, cosmo, nuis in setup:
        labels = cosmo + nuis
        v = c.pd_matrix(name, labels)
        df = pd.DataFrame([[v[(a, b)] for b in labels] for a in labels], index=labels, columns=labels)
        Fs[name] = c.target(FM + ':FisherMatrix')(matrix_df=df, name=name, cosmological_parameters=cosmo, nuisance_parameters=nuis)
        vs[name] = (v, cosmo, nuis)
    fid = {p: c.real('fiducial_' + p) for p in setup[0][1]}
    an = c.target(FA + ':FisherAnalysis')(cosmo_pars_fiducial=dict(fid), fisher_matrices=dict(Fs))
    return an, vs, fid


@contract('P07', [FA + '.FisherAnalysis.__init__', FA + '.FisherAnalysis.sliceFishers',
                  FA + '.FisherAnalysis.evaluateMarginalizedErrors', FA + '.FisherAnalysis.evaluateRelativeMarginalizedErrors'], weight=2)
def error_tables(c):
    """one row per matrix, one column per cosmological parameter: the marginalised error; the relative table divides by the
    absolute fiducial value (or leaves the error where the fiducial is zero)"""
    an, vs, fid = analysis(c)
    ws = {}
    for name, (v, cosmo, nuis) in vs.items():
        ws[name] = w = c.inverse(v, cosmo + nuis)
        c.require(c.and_(*[w[(p, p)] > 0 for p in cosmo]))      # positive definite
        if 'wa' in cosmo:
            c.require(w[('w0', 'w0')] * w[('wa', 'wa')] - w[('w0', 'wa')] * w[('wa', 'w0')] > 0)
    an.evaluateMarginalizedErrors()
    e, r = an.marginalized_errors, an.relative_marginalized_errors
    cols = set(fid) | ({'FoM'} if 'wa' in fid else set())
    for t in (e, r):
        c.ensure('labels', set(t.index) == set(vs) and set(t.columns) == cols)
    for name, w in ws.items():
        for p in fid:
            s = c.sqrt(w[(p, p)])
            c.ensure('error', c.eq(e.loc[name, p], s))
            c.ensure('relative error', c.or_(c.and_(c.eq(fid[p], 0), c.eq(r.loc[name, p], s)),
                                             c.and_(c.not_(c.eq(fid[p], 0)), c.eq(r.loc[name, p] * c.abs(fid[p]), s))))
        if 'wa' in fid:
            det = w[('w0', 'w0')] * w[('wa', 'wa')] - w[('w0', 'wa')] * w[('wa', 'w0')]
            c.ensure('figure of merit', c.and_(c.eq(e.loc[name, 'FoM'], c.div(1, c.sqrt(det))),
                                               c.eq(r.loc[name, 'FoM'], c.div(1, c.sqrt(det)))))


@contract('P07', [FA + '.FisherAnalysis.marginalizeFishers', FA + '.FisherAnalysis.__init__'], weight=2)
def marginalising_a_whole_analysis(c):
    """every matrix is marginalised over the requested parameters it has"""
    an, vs, fid = analysis(c)
    what = c.choice('over', ['all_nuisance', {'h'}, {'h', 'b2'}])
    an.marginalizeFishers(set(what) if isinstance(what, set) else what)
    for name, (v, cosmo, nuis) in vs.items():
        gone = set(nuis) if what == 'all_nuisance' else what
        keep = [p for p in cosmo + nuis if p not in gone]
        consistent(c, an.fisher_matrices[name], c.inverse(c.inverse(v, cosmo + nuis), keep), [p for p in cosmo if p in keep],
                   [p for p in nuis if p in keep], 'after.')
