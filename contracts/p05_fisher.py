"""Fisher elements: per-multipole quadratic form in the inverse covariance, summed over multipoles; probe-exclusive
multipoles added once."""
import itertools
from types import SimpleNamespace
from pyver.api import contract

FE = 'seyfert.fisher.fisher_evaluator'
EV = FE + '.FisherEvaluator.'
LA = 'seyfert.fisher.linalg_tools'


def frame_col(c, df, key):
    return df[key].values


@contract('P05', [EV + 'computeFisherOfMultipole'], weight=3)
def multipole_quadratic_form(c):
    """element (a, b) at multipole l is  sum_rs d_a[l,r] Cov^-1[l,r,s] d_b[l,s]  for every pair of free parameters, and the
    table is symmetric in (a, b)"""
    L = c.int('L', 1, conc=(1, 5))
    N = c.int('N', 1, conc=(1, 6))
    ells = c.array('ells', (L,), increasing=True, positive=True)
    inv = c.array('inv', (L, N, N), symmetric=True)
    names = c.choice('parameters', [['h'], ['h', 'ns'], ['w0', 'h', 'bgph1']])
    d = {p: c.array('d_' + p, (L, N)) for p in names}
    ev = c.target(FE + ':FisherEvaluator')(['phph'])
    ev.free_physical_parameters = {p: None for p in names}
    ev.covariance = SimpleNamespace(common_ells=ells, inverse=inv)
    f = ev.computeFisherOfMultipole(vec_dcls_dict=d)
    c.ensure('columns', set(f.columns) == {(a, b) for a in names for b in names})
    c.fresh_array_equal('index', f.index.values, ells)
    for a in names:
        for b in names:
            col = f[(a, b)].values
            c.forall('element', [L], lambda l: c.eq(c.get(col, l), c.sum(0, N, lambda r: c.sum(
                0, N, lambda s: c.get(d[a], l, r) * c.get(inv, l, r, s) * c.get(d[b], l, s)))))
            other = f[(b, a)].values
            c.forall('symmetric', [L], lambda l: c.eq(c.get(col, l), c.get(other, l)))


def table(c, names, L, name, ells):
    """a per-multipole table as the evaluator builds it"""
    pd = c.target('seyfert.fisher.fisher_evaluator:pd')
    cols = {(a, b): c.array(f'{name}_{a}_{b}', (L,)) for a in names for b in names}
    df = pd.DataFrame(cols)
    df.set_index(ells, inplace=True)
    return df, cols


@contract('P05', [EV + 'sumFisherOverMultipoles'])
def sum_over_selected_multipoles(c):
    """the matrix element is the sum of the table over exactly the selected multipoles"""
    L = c.int('L', 1, conc=(1, 6))
    M = c.int('M', 1, conc=(1, 6))
    ells = c.array('ells', (L,), increasing=True, positive=True, gen=lambda r, s: 1. + 0.75 * r.choice(s[0] + 2, s[0], replace=False))
    sel = c.array('sel', (M,), increasing=True, positive=True, gen=lambda r, s: 1. + 0.75 * r.choice(s[0] + 2, s[0], replace=False))
    names = c.choice('parameters', [['h'], ['w0', 'h']])
    df, cols = table(c, names, L, 'f', ells)
    m = c.target(FE + ':FisherEvaluator.sumFisherOverMultipoles')(df, sel)
    inside = c.member(sel)
    for a in names:
        for b in names:
            c.ensure('element', c.eq(m.loc[a, b], c.sum(0, L, lambda l: c.ite(inside(c.get(ells, l)), c.get(cols[(a, b)], l), 0))))


PAIRS = ['phph', 'phwl', 'phsp', 'wlwl', 'spwl', 'spsp']
SUBSETS = [list(x) for n in (1, 2, 3) for x in itertools.combinations(PAIRS, n)] + [PAIRS]


@contract('P05', [EV + 'addInvolvedProbesContribution', EV + 'sumFisherOverMultipoles'], weight=2)
def exclusive_contributions_once(c):
    """every single-probe table of a probe whose auto-correlation is in the data vector contributes exactly its multipoles
    outside the common ones, once, added label-wise; other probes contribute nothing"""
    keys = c.choice('data_vector', SUBSETS)
    K = c.int('K', 1, conc=(1, 5))
    gen = lambda r, s: 1. + 0.75 * r.choice(s[0] + 3, s[0], replace=False)
    common = c.array('common', (K,), increasing=True, positive=True, gen=gen)
    base = ['h', 'ns']
    own = {'GCph': ['h', 'ns', 'bgph1'], 'WL': ['h', 'ns', 'aIA'], 'GCsp': ['h', 'ns']}
    pd = c.target('seyfert.fisher.fisher_evaluator:pd')
    alias = {'ph': 'GCph', 'wl': 'WL', 'sp': 'GCsp'}
    probes = sorted({alias[k[:2]] for k in keys if k[:2] == k[2:]})
    labels = sorted(set(base) | {x for k in keys for s in (k[:2], k[2:]) for x in own[alias[s]]})
    f0 = {(a, b): c.real(f'F_{a}_{b}') for a in labels for b in labels}
    F = pd.DataFrame([[f0[(a, b)] for b in labels] for a in labels], index=labels, columns=labels)
    tabs, cols, Ls, es = {}, {}, {}, {}
    for p in ('GCph', 'WL', 'GCsp'):
        Ls[p] = c.int('L_' + p, 1, conc=(1, 5))
        es[p] = c.array('ells_' + p, (Ls[p],), increasing=True, positive=True, gen=gen)
        tabs[p], cols[p] = table(c, own[p], Ls[p], p, es[p])
    ev = c.target(FE + ':FisherEvaluator')(keys)
    ev.covariance = SimpleNamespace(common_ells=common)
    R = ev.addInvolvedProbesContribution(F, tabs)
    inside = c.member(common)
    c.ensure('labels', c.and_(set(R.index) == set(labels), set(R.columns) == set(labels)))
    for a in labels:
        for b in labels:
            tot = f0[(a, b)]
            for p in probes:
                if (a, b) in cols[p]:
                    tot = tot + c.sum(0, Ls[p], lambda l: c.ite(inside(c.get(es[p], l)), 0, c.get(cols[p][(a, b)], l)))
            c.ensure('element', c.eq(R.loc[a, b], tot))


VECTORS = [['phph'], ['phwl'], ['phph', 'phwl', 'wlwl'], ['wlph', 'spsp']]


@contract('P05', [EV + 'buildClDerivativeDataVector', EV + 'selectClDerivatives', FE + '.mask_cl_blocks_to_common_ells',
                  'seyfert.fisher.fisher_utils.vecpClArray', 'seyfert.fisher.fisher_utils.vecClArray'], weight=4)
def derivative_vector_layout(c):
    """the derivative vector lists the spectra of the data vector in order, each in its enumeration order (the covariance's
    layout), at the multipoles common to all of them"""
    from contracts.p03_covariance import inputs, layout, probes_of
    keys = c.choice('data_vector', VECTORS)
    flip = c.choice('stored_reversed', [False, True])
    n, ells, cls, E, D = inputs(c, probes_of(keys), flip)
    ev = c.target(FE + ':FisherEvaluator')(keys)
    c.require_common([E[(k[:2], k[2:])] for k in keys])
    l, v = ev.buildClDerivativeDataVector(SimpleNamespace(ell_dict=ells, dc_lij_array_dict=cls))
    es, offs = layout(c, keys, n)
    c.ensure('shape', c.shape_eq(v, (c.len(l), offs[-1])))
    c.ensure_common('multipoles', l, [E[(k[:2], k[2:])] for k in keys])
    for x, k in enumerate(keys):
        pos = c.positions(E[(k[:2], k[2:])], l)

        def entry(t, r):
            (i, j), row = c.map_item(es[x], r)
            return c.eq(c.get(v, t, offs[x] + row), D[(k[:2], k[2:])](pos(t), i, j))
        c.forall('entry', [c.len(l), c.len(es[x])], entry)


def parameters(c, spec):
    """a parameter collection; spec: name -> (probe or None, free)"""
    PM = 'seyfert.cosmology.parameter'
    make = c.target(PM + ':PhysicalParameter')
    pars = {}
    for name, (probe, free) in spec.items():
        kind = "NuisanceParameter" if probe else "CosmologicalParameter"
        pars[name] = make(name=name, fiducial=1.0, kind=kind, is_free_parameter=free, probe=probe)
    pc = c.target(PM + ':PhysicalParametersCollection')()
    pc.update(pars)
    return pc


PH, SP, WL, VD = 'PhotometricGalaxy', 'SpectroscopicGalaxy', 'Lensing', 'Void'
SPECS = [
    {'h': (None, True), 'ns': (None, False), 'bgph1': (PH, True), 'bgph2': (PH, False), 'bgsp1': (SP, True), 'aIA': (WL, True),
     'bvd1': (VD, True)},
    {'aIA': (WL, False), 'bgsp1': (SP, True), 'w0': (None, True), 'bgph1': (PH, True), 'h': (None, True), 'bgsp2': (SP, True)},
    {'h': (None, True)},
]
NAMES = {'ph': PH, 'sp': SP, 'wl': WL, 'vd': VD}


def expected_parameters(spec, keys):
    probes = {NAMES[s] for k in keys for s in (k[:2], k[2:])}
    return {n for n, (p, free) in spec.items() if free and (p is None or p in probes)}


@contract('P05', [EV + 'selectFreeParameters'], weight=1)
def parameters_of_the_matrix(c):
    """the matrix is over exactly the free cosmological parameters and the free nuisance parameters of the probes whose spectra
    are in the data vector"""
    spec, keys = c.choice('parameters', SPECS), c.choice('data_vector', SUBSETS + [['vdvd'], ['phvd', 'wlwl']])
    pc = parameters(c, spec)
    ev = c.target(FE + ':FisherEvaluator')(keys)
    ev.selectFreeParameters(pc)
    c.ensure('parameters', set(ev.free_physical_parameters) == expected_parameters(spec, keys))
    c.ensure('objects', c.and_(*[ev.free_physical_parameters[n] is pc[n] for n in ev.free_physical_parameters]))
    ev.selectFreeParameters(pc)
    c.ensure('selected again', c.and_(set(ev.free_physical_parameters) == expected_parameters(spec, keys), set(pc) == set(spec)))


@contract('P05', [EV + 'buildVectorizedClDerivatives', EV + 'checkClDerivativeMultipolesConsistency'], weight=2)
def derivatives_of_every_parameter(c):
    """each free parameter is paired with the vector built from its own derivatives, and the evaluation is refused unless all
    of them are at the multipoles of the covariance"""
    L, N = c.int('L', 1, conc=(1, 4)), c.int('N', 1, conc=(1, 3))
    names = c.choice('parameters', [['h'], ['h', 'ns'], ['w0', 'h', 'bgph1']])
    other = c.choice('other multipoles', [None] + names + ['covariance', 'more', 'fewer'])
    grid = lambda name, n: c.array(name, (n,), increasing=True, positive=True)
    ells, moved = grid('ells', L), grid('moved', L)
    q = c.int('q', 0, conc=(0, 3))
    c.require(q < L)
    c.require(c.and_(c.not_(c.eq(c.get(ells, q), c.get(moved, q)))))
    longer = grid('longer', L + c.int('extra', 1, conc=(1, 3)))
    c.require(c.not_(c.eq(c.get(longer, 0), c.get(longer, 1))))
    if other == 'fewer':
        ells, longer = longer, ells
        L = c.len(ells)
    d = {p: c.array('d_' + p, (L, N)) for p in names}
    coll = {p: SimpleNamespace(name=p) for p in names + ['unused']}
    ev = c.target(FE + ':FisherEvaluator')(['phph'])
    ev.free_physical_parameters = {p: None for p in names}
    ev.buildClDerivativeDataVector = lambda dcoll: (moved if dcoll.name == other else ells, d[dcoll.name])
    ev.covariance = SimpleNamespace(common_ells={'covariance': moved, 'more': longer, 'fewer': longer}.get(other, moved if names == [other] else ells),
                                    inverse=None)

    def run():
        l, v = ev.buildVectorizedClDerivatives(coll)
        ev.checkClDerivativeMultipolesConsistency(l)
        return l, v
    if other in ('more', 'fewer'):
        c.raises('different number of multipoles', Exception, run)
    elif other is not None and names != [other]:
        c.raises('different multipoles', c.target(FE + ':MultipoleError'), run)
    else:
        l, v = run()
        c.fresh_array_equal('multipoles', l, ev.covariance.common_ells)
        c.ensure('parameters', set(v) == set(names))
        for p in names:
            c.fresh_array_equal('vector of its own derivatives', v[p], d[p])


@contract('P05', [EV + 'buildAndInvertCovarianceMatrix', FE + '.ClCovarianceMatrix.evaluateInverse'], weight=3)
def inverse_of_the_covariance(c):
    """the inverse used is the inverse, at each common multipole, of the covariance of the data vector"""
    from contracts.p03_covariance import inputs, probes_of, check_matrix
    keys = c.choice('data_vector', [['phph'], ['phph', 'wlwl'], ['phwl', 'wlwl']])
    n, ells, cls, E, D = inputs(c, probes_of(keys), False)
    ev = c.target(FE + ':FisherEvaluator')(keys)
    ev.buildAndInvertCovarianceMatrix(SimpleNamespace(ell_dict=ells, delta_c_lij_array_dict=cls))
    check_matrix(c, keys, n, E, D, ev.covariance)
    c.fresh_array_equal('multipoles', ev.ells, ev.covariance.common_ells)
    c.fresh_array_equal('inverse', ev.covariance.inverse, c.np().linalg.inv(ev.covariance.matrix))


@contract('P05', [EV + 'computeFisherMatrix', FE + '.compute_fisher_matrix'], weight=3)
def whole_evaluation(c):
    """the matrix returned is the sum over the multipoles of the covariance of the quadratic forms of the free parameters'
    derivative vectors; unless the data vector is a single auto-correlation the single-probe tables are required and added"""
    L, N = c.int('L', 1, conc=(1, 4)), c.int('N', 1, conc=(1, 3))
    spec = c.choice('parameters', SPECS[1:])
    keys = c.choice('data_vector', [['phph'], ['phwl'], ['phph', 'phsp', 'spsp']])
    single = len(keys) == 1 and keys[0][:2] == keys[0][2:]
    tables, both, through = c.choice('call', [(True, False, 'evaluator'), (True, True, 'function'), (False, True, 'evaluator')])
    ells = c.array('ells', (L,), increasing=True, positive=True)
    inv = c.array('inv', (L, N, N), symmetric=True)
    names = sorted(expected_parameters(spec, keys))
    d = {p: c.array('d_' + p, (L, N)) for p in names}
    coll = {p: SimpleNamespace(name=p) for p in spec}
    auto, delta = ({'GCph': 1, 'GCsp': 2} if tables else None), SimpleNamespace(what='noisy spectra')
    pc = parameters(c, spec)
    kls = c.target(FE + ':FisherEvaluator')
    seen = []

    def build(self, delta_cls):
        seen.append(delta_cls)
        self.covariance = SimpleNamespace(common_ells=ells, inverse=inv)

    def add(self, f_mat_df, auto_f_ells):
        seen.append(auto_f_ells)
        return f_mat_df + 1000
    c.stub(FE + ':FisherEvaluator.buildAndInvertCovarianceMatrix', build)
    c.stub(FE + ':FisherEvaluator.buildClDerivativeDataVector', lambda self, dcoll: (ells, d[dcoll.name]))
    c.stub(FE + ':FisherEvaluator.addInvolvedProbesContribution', add)
    kw = dict(phys_pars=pc, dcoll_dvar_dict=coll, delta_cls=delta, return_f_ell=both, auto_f_ells=auto)
    run = (lambda: c.target(FE + ':compute_fisher_matrix')(keys, **kw)) if through == 'function' else \
        (lambda: kls(keys).computeFisherMatrix(**kw))
    if not single and not tables:
        c.raises('single-probe tables missing', ValueError, run)
        return
    R = run()
    if both:
        R, F = R
        c.fresh_array_equal('index', F.index.values, ells)
    c.ensure('covariance of the given spectra', seen[0] is delta)
    c.ensure('single-probe tables', len(seen) == 1 if single else len(seen) == 2 and seen[1] is auto)
    c.ensure('labels', c.and_(set(R.index) == set(names), set(R.columns) == set(names)))
    form = lambda a, b, l: c.sum(0, N, lambda r: c.sum(0, N, lambda s: c.get(d[a], l, r) * c.get(inv, l, r, s) * c.get(d[b], l, s)))
    for a in names:
        for b in names:
            c.ensure('element', c.eq(R.loc[a, b], c.sum(0, L, lambda l: form(a, b, l)) + (0 if single else 1000)))
            if both:
                col = F[(a, b)].values
                c.forall('element at a multipole', [L], lambda l: c.eq(c.get(col, l), form(a, b, l)))
