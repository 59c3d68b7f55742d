"""Adding and subtracting Fisher matrices: label by label on the union of the parameters, operands unchanged."""
from pyver.api import contract

FM = 'seyfert.fisher.fisher_matrix'
F = FM + '.FisherMatrix.'

SETS = [
    ((['h', 'ns'], []), (['h', 'ns'], [])),
    ((['ns', 'h'], []), (['h', 'ns'], [])),
    ((['h'], ['b1']), (['h'], ['b2'])),
    ((['h', 'ns'], ['b1']), (['ns'], ['b2', 'a'])),
    ((['h'], []), (['h', 'w0'], ['b1'])),
    ((['w0', 'h'], ['b2', 'b1']), (['h'], ['b1', 'b2'])),
    ((['h'], ['x']), (['x', 'h'], [])),
]


def fisher(c, name, cosmo, nuis, order=None, sym=True):
    """a Fisher matrix with the given labels (matrix rows in the given order) and arbitrary symmetric entries"""
    labels = order or (cosmo + nuis)
    v = {}
    for i, a in enumerate(labels):
        for b in labels[i:]:
            v[(a, b)] = v[(b, a)] = c.real(f'{name}_{a}_{b}')
    pd = c.target(FM + ':pd')
    df = pd.DataFrame([[v[(a, b)] for b in labels] for a in labels], index=list(labels), columns=list(labels))
    m = c.target(FM + ':FisherMatrix')(matrix_df=df, name=name, cosmological_parameters=cosmo, nuisance_parameters=nuis)
    return m, v


def labels_are(c, m, cosmo, nuis, what=''):
    both = set(cosmo) | set(nuis)
    c.ensure(what + 'labels', c.and_(set(m.matrix.index) == both, set(m.matrix.columns) == both, len(list(m.matrix.index)) == len(both)))
    c.ensure(what + 'cosmological', set(m.cosmological_parameters) == set(cosmo))
    c.ensure(what + 'nuisance', set(m.nuisance_parameters) == set(nuis))


def unchanged(c, m, labels, v, cosmo, nuis, what):
    c.ensure(what + 'order', list(m.matrix.index) == list(labels) and list(m.matrix.columns) == list(labels))
    labels_are(c, m, cosmo, nuis, what)
    for a in labels:
        for b in labels:
            c.ensure(what + 'entries', c.eq(m.matrix.loc[a, b], v[(a, b)]))


@contract('P06', [F + '__add__', F + '__sub__', F + 'zeroPadMatrices', F + 'copy'], weight=3)
def sum_and_difference(c):
    """(F1 ± F2)[a, b] = F1[a, b] ± F2[a, b], absent entries zero, on the union; the operands keep labels and values"""
    (c1, n1), (c2, n2) = c.choice('parameters', SETS)
    op = c.choice('operation', ['+', '-'])
    m1, v1 = fisher(c, 'A', c1, n1)
    m2, v2 = fisher(c, 'B', c2, n2)
    R = m1 + m2 if op == '+' else m1 - m2
    labels_are(c, R, set(c1) | set(c2), set(n1) | set(n2), 'result.')
    s = 1 if op == '+' else -1
    for a in sorted(set(c1 + n1 + c2 + n2)):
        for b in sorted(set(c1 + n1 + c2 + n2)):
            c.ensure('entries', c.eq(R.matrix.loc[a, b], v1.get((a, b), 0) + s * v2.get((a, b), 0)))
    unchanged(c, m1, c1 + n1, v1, c1, n1, 'first.')
    unchanged(c, m2, c2 + n2, v2, c2, n2, 'second.')
    c.ensure('name', R.name == f'A {op} B')


@contract('P06', [F + '__add__', F + '__sub__', F + 'zeroPadMatrices'], weight=2)
def chains(c):
    """(A + B) - C and A - (B + C), with three different label sets"""
    which = c.choice('chain', ['(A+B)-C', 'A-(B+C)', '(A-B)+C', '(A+B)+B'])
    A, va = fisher(c, 'A', ['h'], ['b1'])
    B, vb = fisher(c, 'B', ['h', 'w0'], [])
    C, vc = fisher(c, 'C', ['w0'], ['b2'])
    R, sa, sb, sc = {'(A+B)-C': lambda: ((A + B) - C, 1, 1, -1), 'A-(B+C)': lambda: (A - (B + C), 1, -1, -1),
                     '(A-B)+C': lambda: ((A - B) + C, 1, -1, 1), '(A+B)+B': lambda: ((A + B) + B, 1, 2, 0)}[which]()
    labels = ['h', 'w0', 'b1', 'b2'] if sc else ['h', 'w0', 'b1']
    labels_are(c, R, ['h', 'w0'], labels[2:], 'result.')
    for a in labels:
        for b in labels:
            c.ensure('entries', c.eq(R.matrix.loc[a, b], sa * va.get((a, b), 0) + sb * vb.get((a, b), 0) + sc * vc.get((a, b), 0)))
    unchanged(c, A, ['h', 'b1'], va, ['h'], ['b1'], 'A.')
    unchanged(c, B, ['h', 'w0'], vb, ['h', 'w0'], [], 'B.')


@contract('P06', [F + 'copy', F + '__deepcopy__'])
def copies_are_independent(c):
    """a copy has the same labels, values, name and flags, and changing it leaves the original alone"""
    import copy
    cosmo, nuis = c.choice('parameters', [(['h', 'ns'], ['b1']), (['w0'], []), (['ns', 'h'], ['b2', 'b1'])])
    m, v = fisher(c, 'A', cosmo, nuis)
    m.marginalize_nuisance = c.choice('flag', [True, False])
    k = m.copy() if c.choice('deepcopy', [False, True]) is False else copy.deepcopy(m)
    c.ensure('name', k.name == 'A' and k.marginalize_nuisance == m.marginalize_nuisance)
    unchanged(c, k, cosmo + nuis, v, cosmo, nuis, 'copy.')
    k.matrix.loc[cosmo[0], cosmo[0]] = 0
    k.fixParameters({cosmo[0]})
    unchanged(c, m, cosmo + nuis, v, cosmo, nuis, 'original.')
