"""Comparisons: percentage differences, comparison of two runs, changes of basis."""
import itertools
import tempfile
from types import SimpleNamespace as ns
from pyver.api import contract

NG = 'seyfert.numeric.general'
RL = 'seyfert.utils.run_loader'
CU = 'seyfert.utils.comparison_utils'
TH = 'seyfert.notebook_helpers.table_helpers'
IC = 'seyfert.utils.ist_comparison'
GU = 'seyfert.utils.general_utils'
M = RL + '.ComparisonMetrics.'


def pad_of(c, x, y):
    """200 |x - y| / |x + y|; for opposite values the difference itself in per cent"""
    if not c.sym and x + y == 0:
        return 100 * abs(x - y)
    return c.ite(x + y == 0, 100 * c.abs(x - y), c.div(200 * c.abs(x - y), c.abs(x + y)))


@contract('P24', [NG + '.pad'], weight=2)
def difference_of_arrays(c):
    """the percentage absolute difference is taken entry by entry, is never negative, and is zero exactly where the arrays agree"""
    nd = c.choice('dimensions', [1, 2, 3])
    shape = tuple(c.int(f'n{k}', 1, conc=(1, 4)) for k in range(nd))
    x, y = c.array('x', shape), c.array('y', shape)
    if not c.sym:
        import numpy as np
        # equal, opposite and vanishing entries as well
        y = np.where(x > 1.5, x, np.where(x < -1.5, -x, y))
        x = np.where(abs(x) < .3, 0, x)
    x0, y0 = x.copy(), y.copy()
    r = c.target(NG + ':pad')(x, y)
    s = c.target(NG + ':pad')(y, x)
    c.ensure('shape', c.shape_eq(r, shape))
    c.forall('value', list(shape), lambda *i: c.eq(c.get(r, *i), pad_of(c, c.get(x0, *i), c.get(y0, *i))))
    c.forall('not negative', list(shape), lambda *i: c.get(r, *i) >= 0)
    c.forall('zero exactly when equal', list(shape), lambda *i: (c.get(r, *i) == 0) == (c.get(x0, *i) == c.get(y0, *i)))
    c.forall('symmetric', list(shape), lambda *i: c.eq(c.get(r, *i), c.get(s, *i)))
    c.fresh_array_equal('first unchanged', x, x0)
    c.fresh_array_equal('second unchanged', y, y0)


@contract('P24', [NG + '.pad'], weight=2)
def difference_of_tables(c):
    """tables are compared by label, whatever the order of their rows and columns and the signs of their entries; tables with
    different labels are refused"""
    pd = c.target(NG + ':pd')
    rows, cols = ['a', 'b', 'c'][:c.choice('rows', [1, 2, 3])], ['h', 'ns']
    other = c.choice('second table', ['same order', 'reversed', 'row missing', 'column missing', 'other row'])
    x = {(i, j): c.real(f'x_{i}{j}') for i in rows for j in cols}
    y = {(i, j): c.real(f'y_{i}{j}') for i in rows for j in cols}
    r2, c2 = (rows[::-1], cols[::-1]) if other == 'reversed' else (rows, cols)
    if other == 'row missing':
        r2 = rows[:-1]
    elif other == 'column missing':
        c2 = cols[1:]
    elif other == 'other row':
        r2 = rows[:-1] + ['z']
        y.update({('z', j): 1.0 for j in cols})
    X = pd.DataFrame([[x[(i, j)] for j in cols] for i in rows], index=rows, columns=cols)
    if r2:
        Y = pd.DataFrame([[y[(i, j)] for j in c2] for i in r2], index=r2, columns=c2)
    else:
        return
    f = c.target(NG + ':pad')
    if other in ('row missing', 'column missing', 'other row'):
        c.raises('different labels', Exception, lambda: f(X, Y))
        c.raises('different labels', Exception, lambda: f(Y, X))
        return
    R, S = f(X, Y), f(Y, X)
    c.ensure('labels', c.and_(list(R.index) == rows, list(R.columns) == cols))
    for i in rows:
        for j in cols:
            c.ensure('value', c.eq(R.loc[i, j], pad_of(c, x[(i, j)], y[(i, j)])))
            c.ensure('not negative', R.loc[i, j] >= 0)
            c.ensure('symmetric', c.eq(R.loc[i, j], S.loc[i, j]))
            c.ensure('first unchanged', c.eq(X.loc[i, j], x[(i, j)]))


@contract('P24', [NG + '.pad', NG + '.percentage_difference'], weight=1)
def difference_of_numbers(c):
    """the same for two numbers; the percentage difference is relative to the reference"""
    x, y = c.real('x'), c.real('y')
    c.require(c.not_(c.eq(x + y, 0)))
    c.ensure('value', c.eq(c.target(NG + ':pad')(x, y), pad_of(c, x, y)))
    r = c.real('reference', nonzero=True)
    c.ensure('percentage', c.eq(c.target(NG + ':percentage_difference')(x, r), c.div(100 * (x - r), r)))
    n = c.int('n', 1, conc=(1, 5))
    a, b = c.array('a', (n,)), c.array('b', (n,), nonzero=True)
    p = c.target(NG + ':percentage_difference')(minuend=a, ref=b)
    c.forall('percentage of an array', [n], lambda k: c.eq(c.get(p, k), c.div(100 * (c.get(a, k) - c.get(b, k)), c.get(b, k))))


@contract('P24', [NG + '.odm_weighted_pad'], weight=1)
def weighted_difference(c):
    """the difference weighted by the size of the mean, relative to the average size"""
    n = c.int('n', 1, conc=(1, 5))
    x, y = c.array('x', (n,), positive=True), c.array('y', (n,), positive=True)
    r = c.target(NG + ':odm_weighted_pad')(x, y)
    total = c.sum(0, n, lambda k: (c.get(x, k) + c.get(y, k)) / 2)
    c.require(total > 0)
    c.forall('value', [n], lambda k: c.eq(c.get(r, k), c.div(pad_of(c, c.get(x, k), c.get(y, k)) * (c.get(x, k) + c.get(y, k)) / 2, c.div(total, n))))
    c.raises('not an array', Exception, lambda: c.target(NG + ':odm_weighted_pad')('x', 'y'))


class Pair:
    """the metric stand-in: remembers what was compared with what"""

    def __init__(self):
        self.seen = []

    def __call__(self, x, y):
        self.seen.append((x, y))
        return ('difference', x, y)


def loader(c, run, keys):
    """a stand-in for a loaded run whose quantities are named by run, kind and key"""
    name = lambda *a: (run,) + a
    cls = {}
    for k in keys['cls']:
        spectra = {s: ns(c_lij=name('cl', k, s), kernel=ns(k_ijz=name('kernel', k, s)),
                         weight1=ns(density=ns(norm_density_iz=name('n1', k, s)), w_bin_z=name('w1', k, s)),
                         weight2=ns(density=ns(norm_density_iz=name('n2', k, s)), w_bin_z=name('w2', k, s))) for s in keys['short']}

        class Coll(dict):
            short_keys = list(spectra)
        cls[k] = Coll(spectra)
    return ns(pmms={k: ns(lin_p_mm_z_k=name('lin', k), nonlin_p_mm_z_k=name('nonlin', k)) for k in keys['pmms']},
              cosmos={k: ns(E_z=name('E', k), r_tilde_z=name('r', k)) for k in keys['cosmos']}, cls=cls,
              dcls={k: {s: name('dcl', k, s) for s in keys['short']} for k in keys['dcls']},
              fishers={k: ns(matrix=name('F', k), inverse=name('inv', k)) for k in keys['fishers']},
              marg_errs={k: name('errs', k) for k in keys['errs']})


@contract('P24', [M + f for f in ('__init__', 'evaluate', 'evaluatePmmMetrics', 'evaluateCosmoMetrics', 'evaluateClDataMetrics', 'evaluateClDerivativesMetrics', 'evaluateFisherMetrics',
                                  'evaluateMargErrsMetrics', 'buildClDataMetrics', 'getComparisonKeys', 'pmms', 'cosmos', 'cls', 'dcls', 'fisher', 'inverse_fisher', 'marg_errs')], weight=2)
def runs_compared(c):
    """every quantity both runs have is compared with the same quantity of the other run, the first run first; nothing else is"""
    kinds = ['pmms', 'cosmos', 'cls', 'dcls', 'fishers', 'errs', 'short']
    one = {k: ['x', 'y'] for k in kinds}
    two = {k: ['x', 'y'] for k in kinds}
    which = c.choice('differ in', [None] + kinds)
    how = c.choice('how', ['fewer', 'more', 'other', 'disjoint', 'order'])
    if which:
        two[which] = {'fewer': ['y'], 'more': ['y', 'z', 'x'], 'other': ['z', 'x'], 'disjoint': ['u', 'v'], 'order': ['y', 'x']}[how]
    both = {k: sorted(set(one[k]) & set(two[k])) for k in kinds}
    m = c.target(RL + ':ComparisonMetrics')(loader(c, 1, one), loader(c, 2, two), metric_func=Pair())
    spectra = c.choice('power spectra', [True, False])
    m.evaluate(eval_pmm_metric=spectra)
    d = lambda *a: ('difference', (1,) + a, (2,) + a)
    want = {
        'pmms': {k: {'lin': d('lin', k), 'nonlin': d('nonlin', k)} for k in both['pmms']} if spectra else {},
        'cosmos': {k: {'E_z': d('E', k), 'r_tilde_z': d('r', k)} for k in both['cosmos']},
        'cls': {k: {s: {'c_lij': d('cl', k, s), 'n1_iz': d('n1', k, s), 'n2_iz': d('n2', k, s), 'w1_iz': d('w1', k, s), 'w2_iz': d('w2', k, s), 'k_ijz': d('kernel', k, s)}
                    for s in both['short']} for k in both['cls']},
        'dcls': {k: {s: d('dcl', k, s) for s in both['short']} for k in both['dcls']},
        'fisher': {k: d('F', k) for k in both['fishers']},
        'inverse_fisher': {k: d('inv', k) for k in both['fishers']},
        'marg_errs': {k: d('errs', k) for k in both['errs']},
    }
    got = {'pmms': m.pmms, 'cosmos': m.cosmos, 'cls': m.cls, 'dcls': m.dcls, 'fisher': m.fisher, 'inverse_fisher': m.inverse_fisher, 'marg_errs': m.marg_errs}
    for k in want:
        c.ensure(k, got[k] == want[k])


@contract('P24', [M + f for f in ('evaluate', 'evaluatePmmMetrics', 'evaluateCosmoMetrics', 'evaluateClDerivativesMetrics', 'evaluateFisherMetrics', 'evaluateMargErrsMetrics')],
          mode='bounded', trials=60, bound='random arrays and labelled tables of up to 3 entries per axis')
def quantities_handed_over_whole(c):
    """the compared arrays and tables are those of the runs as they are, entry by entry and label by label, null ones included"""
    import numpy as np
    import pandas as pd
    pair = Pair()

    def array(tag):
        n = c.choice(tag + ' size', [1, 2, 3])
        return c.choice(tag + ' null', [0., 1.]) * c.array(tag, (n, 2))

    def frame(tag):
        labels = c.choice(tag + ' labels', [['h', 'ns', 'w0'], ['w0', 'h', 'ns'], ['h', 'ns'], ['h', 'ns', 'aIA']])
        v = c.choice(tag + ' null', [0., 1.]) * c.array(tag, (len(labels), len(labels)))
        return pd.DataFrame(v, index=labels, columns=labels)

    def run(t):
        return ns(pmms={'h_1': ns(lin_p_mm_z_k=array(f'lin{t}'), nonlin_p_mm_z_k=array(f'nonlin{t}'))},
                  cosmos={'h_1': ns(E_z=array(f'E{t}'), r_tilde_z=array(f'r{t}'))}, cls={},
                  dcls={'h': {'phph': array(f'd1{t}'), 'phwl': array(f'd2{t}')}},
                  fishers={'WL': ns(matrix=frame(f'F{t}'), inverse=frame(f'I{t}'))}, marg_errs={'WL': frame(f'm{t}')['h']})
    a, b = run(1), run(2)
    m = c.target(RL + ':ComparisonMetrics')(a, b, metric_func=pair)
    m.evaluate(eval_pmm_metric=True)

    def equal(x, y):
        if isinstance(y, (pd.DataFrame, pd.Series)):
            return type(x) is type(y) and list(x.index) == list(y.index) and (isinstance(y, pd.Series) or list(x.columns) == list(y.columns)) and np.array_equal(x.values, y.values)
        return x.shape == y.shape and np.array_equal(x, y)

    def check(name, got, x, y):
        c.ensure(name, got[0] == 'difference' and equal(got[1], x) and equal(got[2], y))
    check('linear', m.pmms['h_1']['lin'], a.pmms['h_1'].lin_p_mm_z_k, b.pmms['h_1'].lin_p_mm_z_k)
    check('nonlinear', m.pmms['h_1']['nonlin'], a.pmms['h_1'].nonlin_p_mm_z_k, b.pmms['h_1'].nonlin_p_mm_z_k)
    check('expansion', m.cosmos['h_1']['E_z'], a.cosmos['h_1'].E_z, b.cosmos['h_1'].E_z)
    check('distance', m.cosmos['h_1']['r_tilde_z'], a.cosmos['h_1'].r_tilde_z, b.cosmos['h_1'].r_tilde_z)
    c.ensure('derivatives', sorted(m.dcls) == ['h'] and sorted(m.dcls['h']) == ['phph', 'phwl'])
    for k in ('phph', 'phwl'):
        check('derivative ' + k, m.dcls['h'][k], a.dcls['h'][k], b.dcls['h'][k])
    check('Fisher', m.fisher['WL'], a.fishers['WL'].matrix, b.fishers['WL'].matrix)
    check('inverse', m.inverse_fisher['WL'], a.fishers['WL'].inverse, b.fishers['WL'].inverse)
    check('errors', m.marg_errs['WL'], a.marg_errs['WL'], b.marg_errs['WL'])


@contract('P24', [M + 'writeOnDisk', M + 'loadFromDisk'], mode='bounded', trials=20, bound='random differences of up to 3 quantities')
def differences_kept(c):
    """differences written to a directory read back the same, without touching the kept ones"""
    import numpy as np
    import pandas as pd
    m = c.target(RL + ':ComparisonMetrics')()
    n = c.choice('n', [1, 2, 3])
    for k in ('fisher', 'marg_errs')[:c.choice('kinds', [1, 2])]:
        m.metrics[k]['WL'] = pd.DataFrame(c.array(k, (n, n)), index=list('abc')[:n], columns=list('abc')[:n])
    m.metrics['cls']['h_1'] = {'phwl': {'c_lij': c.array('cl', (n, 2, 2))}}
    with tempfile.TemporaryDirectory(prefix='pyver') as d:
        m.writeOnDisk(d)
        x = c.target(RL + ':ComparisonMetrics')()
        x.loadFromDisk(d)
    c.ensure('kinds', {k: sorted(v) for k, v in x.metrics.items()} == {k: sorted(v) for k, v in m.metrics.items()})
    for k in ('fisher', 'marg_errs'):
        for q in m.metrics[k]:
            c.ensure(k, x.metrics[k][q].equals(m.metrics[k][q]))
    c.ensure('spectra', np.array_equal(x.cls['h_1']['phwl']['c_lij'], m.cls['h_1']['phwl']['c_lij']))


@contract('P24', [M + 'checkPadsDict', M + 'testAllMetrics'], mode='bounded', trials=200, bound='one or two tables of up to 9 differences around the thresholds')
def differences_reported(c):
    """a matrix or table with an entry above its threshold is always reported, one without never is: 1e-6 for the errors, 1e-5 for
    the Fisher matrices and their inverses"""
    import numpy as np
    import pandas as pd
    said = []
    c.stub(RL + ':logger', ns(info=lambda *a: None, warning=lambda msg, *a: said.append(msg % a if a else msg)))
    m = c.target(RL + ':ComparisonMetrics')()
    n = c.choice('parameters', [1, 2, 3])
    labels = ['h', 'ns', 'w0'][:n]
    bad = set()
    for what, t in (('marg_errs', 1e-6), ('fisher', 1e-5), ('inverse_fisher', 1e-5)):
        for k in ('GCph', 'WL'):
            v = np.full((n, n), 0.8 * t)
            over = c.choice(f'{what} {k}', ['none', 'one', 'missing', 'slightly', 'much'])
            i, j = c.choice(f'{what} {k} row', list(range(n))), c.choice(f'{what} {k} column', list(range(n)))
            if over != 'none':
                v[i, j] = {'one': 1.2 * t, 'slightly': 1.001 * t, 'much': 1e3, 'missing': np.nan}[over]
                bad.add((what, k))
            m.metrics[what][k] = pd.DataFrame(v, index=labels, columns=labels) if what != 'marg_errs' or c.choice(f'{k} as', ['table', 'series']) == 'table' else pd.Series(v[i], index=labels)
    m.testAllMetrics()
    for what in ('marg_errs', 'fisher', 'inverse_fisher'):
        for k in ('GCph', 'WL'):
            c.ensure('reported', any(k in s.split() and what in s.split() for s in said) == ((what, k) in bad))


@contract('P24', [TH + '.compute_percentage_difference', TH + '.compute_simple_difference'], weight=1)
def differences_of_rows(c):
    """the difference of two rows of a table of errors, absolute and relative to the reference row"""
    pd = c.target(TH + ':pd')
    names, cols = ['WL', 'GCph', 'WL+GCph'], ['FoM', 'h', 'ns']
    v = {(i, j): c.real(f'{i}_{j}', nonzero=True) for i in names for j in cols}
    df = pd.DataFrame([[v[(i, j)] for j in cols] for i in names], index=names, columns=cols)
    ref, what = c.choice('reference', names), c.choice('row', names)
    s = c.target(TH + ':compute_simple_difference')(df, ref_fisher=ref, minuend_fisher=what)
    p = c.target(TH + ':compute_percentage_difference')(df, ref_fisher=ref, minuend_fisher=what)
    for j in cols:
        c.ensure('difference', c.eq(s.loc[j], v[(what, j)] - v[(ref, j)]))
        c.ensure('percentage', c.eq(p.loc[j], c.div(100 * (v[(what, j)] - v[(ref, j)]), v[(ref, j)])))
    for i in names:
        for j in cols:
            c.ensure('table unchanged', c.eq(df.loc[i, j], v[(i, j)]))


@contract('P24', [TH + '.compute_percentage_differences_table', TH + '.compute_simple_differences_table'], mode='bounded', trials=40, bound='random tables of up to 4 rows')
def tables_of_differences(c):
    """one row per requested name, the others' differences from the same reference"""
    import pandas as pd
    names, cols = ['WL', 'GCph', 'GCsp', 'WL+GCph'], ['FoM', 'h', 'ns']
    v = {(i, j): c.real(f'{i}_{j}', nonzero=True) for i in names for j in cols}
    df = pd.DataFrame([[v[(i, j)] for j in cols] for i in names], index=names, columns=cols)
    ref = c.choice('reference', names)
    rows = c.choice('rows', [('WL',), ('GCsp', 'WL'), ('WL+GCph', 'GCph', 'WL')])
    t = c.target(TH + ':compute_percentage_differences_table')(df, ref_fisher=ref, minuend_fishers=rows)
    s = c.target(TH + ':compute_simple_differences_table')(df, ref_fisher=ref, minuend_fishers=rows)
    for i in rows:
        for j in cols:
            c.ensure('percentage', c.eq(t.loc[i, j], 100 * (v[(i, j)] - v[(ref, j)]) / v[(ref, j)]))
            c.ensure('difference', c.eq(s.loc[i, j], v[(i, j)] - v[(ref, j)]))
    c.ensure('rows', c.and_(set(t.index) == set(rows), set(s.index) == set(rows)))


@contract('P24', [IC + '.T1', IC + '.T2', IC + '.get_params_bases', IC + '.apply_T1_remove_sigma8', IC + '.apply_T1_remove_sigma8_then_T2'], mode='bounded', trials=12,
          bound='random Fisher matrices with up to 12 bias parameters')
def change_of_basis(c):
    """the Fisher matrix of (parameters, bias times sigma8) is that of (parameters, bias) with the inverse Jacobian on both sides, without
    sigma8's row and column; going back to the parameters of the model puts the Jacobian of the remaining ones on both sides"""
    import numpy as np
    import pandas as pd
    nb = c.choice('bias parameters', [1, 2, 5, 12])
    cosmo = c.choice('parameters', [['sigma8', 'Omm', 'w0'], ['h', 'sigma8'], ['Omm', 'wa', 'ns', 'sigma8']])
    names = cosmo + [f'bgph{k}' for k in range(1, nb + 1)]
    n = len(names)
    A = np.array([[c.real(f'A_{i}{j}') for j in range(n)] for i in range(n)])
    F = pd.DataFrame(A @ A.T + n * np.eye(n), index=names, columns=names)
    fid = {p: c.real('fiducial_' + p, positive=True) for p in names}
    new = [p if not p.startswith('bg') else p + '_sigma8' for p in names]
    s8 = names.index('sigma8')
    J = np.eye(n)
    for k, p in enumerate(names):
        if p.startswith('bg'):
            J[k, k], J[k, s8] = fid['sigma8'], fid[p]
    Ji = np.linalg.inv(J)
    want = pd.DataFrame(Ji.T @ F.to_numpy() @ Ji, index=new, columns=new).drop('sigma8').drop('sigma8', axis=1)
    got = c.target(IC + ':apply_T1_remove_sigma8')(F, fid)
    c.ensure('labels', c.and_(list(got.index) == list(want.index), list(got.columns) == list(want.columns)))
    for i in want.index:
        for j in want.columns:
            c.ensure('transformed', c.eq(got.loc[i, j], want.loc[i, j]))
    back = c.target(IC + ':apply_T1_remove_sigma8_then_T2')(F, fid)
    K = np.array([[1.0 if p == q else (fid[p[:-7]] if p.endswith('_sigma8') and q == 'sigma8' else 0.0) for q in cosmo] for p in want.index])
    B = pd.DataFrame(K.T @ want.to_numpy() @ K, index=cosmo, columns=cosmo)
    c.ensure('labels after', c.and_(list(back.index) == cosmo, list(back.columns) == cosmo))
    for i in cosmo:
        for j in cosmo:
            c.ensure('transformed back', c.eq(back.loc[i, j], B.loc[i, j]))


@contract('P24', [IC + '.compute_errs', IC + '.compute_deltas_errs'], mode='bounded', trials=30, bound='random tables of up to 4 codes and 4 parameters')
def errors_of_several_codes(c):
    """marginalised and unmarginalised errors of each code, and their percentage differences from the mean and the median of the codes"""
    import numpy as np
    import pandas as pd
    n, m = c.choice('parameters', [1, 2, 4]), c.choice('codes', [1, 2, 3, 4])
    names, codes = ['h', 'ns', 'w0', 'wa'][:n], ['CAMB', 'CLASS', 'IST', 'X'][:m]
    fs = {}
    for k in codes:
        A = np.array([[c.real(f'{k}_{i}{j}') for j in range(n)] for i in range(n)])
        fs[k] = pd.DataFrame(A @ A.T + n * np.eye(n), index=names, columns=names)
    e = c.target(IC + ':compute_errs')(fs)
    want = {'marg': {k: np.sqrt(np.diag(np.linalg.inv(F.to_numpy()))) for k, F in fs.items()}, 'unmarg': {k: 1 / np.sqrt(np.diag(F.to_numpy())) for k, F in fs.items()}}
    d = c.target(IC + ':compute_deltas_errs')(e)
    for kind in want:
        table = np.array([want[kind][k] for k in codes])
        for a, k in enumerate(codes):
            for b, p in enumerate(names):
                c.ensure('error', c.eq(e.loc[(kind, k), p], table[a, b]))
                for ref, f in (('mean', np.mean), ('median', np.median)):
                    r = f(table[:, b])
                    c.ensure('difference', abs(d.loc[(ref, kind, k), p] - 100 * (table[a, b] - r) / r) < 1e-6)


@contract('P24', [CU + '.ClDiff.' + f for f in ('__init__', 'evaluateMetrics', 'evaluateComparisonTable', 'cutOffMetrics')], mode='bounded', trials=40, bound='random spectra of up to 5 multipoles and 4 bins')
def spectra_compared(c):
    """for every pair of bins (once for square spectra) the mean and the spread over the multipoles of the percentage differences"""
    import numpy as np
    L, n, m = c.choice('multipoles', [1, 2, 5]), c.choice('rows', [1, 2, 4]), c.choice('columns', [1, 2, 4])
    a, b = c.array('a', (L, n, m), positive=True), c.array('b', (L, n, m), positive=True)
    d = c.target(CU + ':ClDiff')('phwl', a, b, l_values=np.arange(L))
    pads = 200 * np.abs(a - b) / np.abs(a + b)
    rows = {(r.i, r.j): r for r in d.comp_df.itertuples()}
    ref = (a + b) / 2
    wanted = [(i, j) for i in range(n) for j in range(m) if n != m or i <= j]
    if L > 1:
        c.raises('other multipoles', Exception, lambda: c.target(CU + ':ClDiff')('phwl', a, c.array('longer', (L + 2, n, m), positive=True), l_values=np.arange(L)))
        c.raises('other multipoles', Exception, lambda: c.target(CU + ':ClDiff')('phwl', c.array('longer', (L + 2, n, m), positive=True), b, l_values=np.arange(L)))
    for i in range(n):
        for j in range(m):
            if (i, j) in wanted:
                c.ensure('mean', c.eq(d.metrics['mean_PAD'][i, j], pads[:, i, j].mean()))
                c.ensure('spread', c.eq(d.metrics['sigma_PAD'][i, j], pads[:, i, j].std()))
                c.ensure('table', c.eq(rows[(i, j)].mean_pad, pads[:, i, j].mean()))
            else:
                c.ensure('other half left out', np.isnan(d.metrics['mean_PAD'][i, j]))
    c.ensure('one row per pair', len(d.comp_df) == len(wanted))
    c.ensure('sizes', np.allclose(sorted(d.comp_df['cl_order_of_mag']), sorted((ref / ref.max()).mean(axis=0)[i, j] for i, j in wanted)))
    c.ensure('largest', c.eq(ref[:, d.i_max_ref, d.j_max_ref].max(), ref.max()))
    t = float(np.median(pads))
    before = {k: v.copy() for k, v in d.metrics.items()}
    d.cutOffMetrics(t)
    for k, v in before.items():
        for ij in itertools.product(range(n), range(m)):
            x = d.metrics[k][ij]
            c.ensure('cut off', c.eq(x, v[ij]) if v[ij] < t else np.isnan(x))


@contract('P24', [GU + '.compare_objects', GU + '.map_nested_dict', GU + '.subset_dict'], weight=1)
def objects_compared(c):
    """objects are equal exactly when all their attributes are, apart from the excluded ones"""
    n = c.int('n', 1, conc=(1, 4))
    a, b = c.array('a', (n,)), c.array('b', (n,))
    if not c.sym and c.choice('same', [True, False]):
        b = a.copy()
    v, w = c.choice('first', ['x', 'y']), c.choice('second', ['x', 'y'])
    e = c.choice('excluded', [set(), {'name'}, {'values'}, {'name', 'values'}])
    same = c.target(GU + ':compare_objects')(ns(name=v, values=a), ns(name=w, values=b), e)
    eqs = []
    if 'name' not in e:
        eqs.append(v == w)
    if same:
        c.ensure('equal names', c.and_(*eqs) if eqs else True)
        if 'values' not in e:
            c.forall('equal values', [n], lambda k: c.eq(c.get(a, k), c.get(b, k)))
    elif 'values' not in e and all(eqs):
        q = c.sum(0, n, lambda k: c.ite(c.get(a, k) == c.get(b, k), 0, 1))
        c.ensure('different values', q > 0) if not c.sym else None
    else:
        c.ensure('different names', 'name' not in e and v != w)
    f = c.target(GU + ':map_nested_dict')
    c.ensure('nested', f({'a': {'b': 1, 'c': {}}, 'd': 4}, lambda x: -x) == {'a': {'b': -1, 'c': {}}, 'd': -4})
    d = {'x': 1, 'y': 2, 'z': 3}
    keys = c.choice('keys', [(), ('y',), ('z', 'x'), ('x', 'u')])
    c.ensure('subset', c.target(GU + ':subset_dict')(d, keys) == {k: d[k] for k in d if k in keys})
