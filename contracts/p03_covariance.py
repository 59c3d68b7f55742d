"""Gaussian covariance of the spectra: every block is the two-product formula on the multipoles common to its inputs."""
from types import SimpleNamespace
from pyver.api import contract

FE = 'seyfert.fisher.fisher_evaluator'
LA = 'seyfert.fisher.linalg_tools'
AU = 'seyfert.utils.array_utils'
SK = 'seyfert.utils.shortcuts'
ALIAS = {'ph': 'GCph', 'sp': 'GCsp', 'wl': 'WL', 'vd': 'V'}
COV_FNS = [FE + '.ClCovarianceMatrix.computeCovBlock', FE + '.mask_cl_blocks_to_common_ells', LA + '.get_enumeration_map',
           AU + '.compute_arrays_intersection1d', SK + '.SmartKeyDict', SK + '.ClSmartKeyDict', SK + '.ClKey']
ORD = ['ph', 'sp', 'wl', 'vd']


def probes_of(keys):
    return [p for p in ORD if any(p in (k[:2], k[2:]) for k in keys)]


def inputs(c, probes, flip, same_ells=False):
    """delta-Cls of all pairs of the probes; flip: stored under the reversed key"""
    n = {p: c.int('n_' + p, 1, conc=(1, 3)) for p in probes}
    ells, cls, E, D = {}, {}, {}, {}
    for a in range(len(probes)):
        for b in range(a, len(probes)):
            p, q = probes[a], probes[b]
            if p != q and flip:
                p, q = q, p
            L = c.int(f'L_{p}{q}', 1, conc=(2, 6))
            l = c.array(f'ell_{p}{q}', (L,), increasing=True, positive=True, integer=False,
                        gen=lambda r, s: 1.0 + 0.75 * r.choice(s[0] + 2, s[0], replace=False))
            x = c.array(f'D_{p}{q}', (L, n[p], n[q]))
            ells[p + q], cls[p + q] = l, x
            E[(p, q)] = E[(q, p)] = l
            D[(p, q)] = (lambda x: lambda t, i, j: c.get(x, t, i, j))(x)
            if p != q:
                D[(q, p)] = (lambda x: lambda t, i, j: c.get(x, t, j, i))(x)
    return n, ells, cls, E, D


PATTERNS = [('phph', 'phph'), ('phph', 'wlwl'), ('phph', 'phwl'), ('phwl', 'wlwl'), ('phwl', 'phwl'), ('phwl', 'wlph'),
            ('wlph', 'wlwl'), ('phwl', 'spsp'), ('phsp', 'spwl'), ('phwl', 'spvd')]
VECTORS = [['phph'], ['phph', 'wlwl'], ['phwl', 'wlwl'], ['phph', 'wlph', 'wlwl'], ['phwl']]


@contract('P03', COV_FNS, weight=5)
def block_formula(c):
    """block(AB, CD)[l, (ij), (km)] = (D_AC[l,i,k] D_BD[l,j,m] + D_AD[l,i,m] D_BC[l,j,k]) / (2 l + 1)  on the multipoles
    common to the four inputs, for any numbers of bins and multipoles"""
    AB, CD = c.choice('pattern', PATTERNS)
    flip = c.choice('stored_reversed', [False, True])
    A, B, C, Dp = AB[:2], AB[2:], CD[:2], CD[2:]
    n, ells, cls, E, D = inputs(c, probes_of([AB, CD]), flip)
    key = c.target(SK + ':ClKey')
    block = c.target(FE + ':ClCovarianceMatrix.computeCovBlock')
    l, cov = block(key(AB), key(CD), c.target(SK + ':SmartKeyDict')(ells), c.target(SK + ':ClSmartKeyDict')(cls))
    enum = c.target(LA + ':get_enumeration_map')
    eAB, eCD = enum((n[A], n[B]), A == B), enum((n[C], n[Dp]), C == Dp)
    c.ensure('shape', c.shape_eq(cov, (c.len(l), c.len(eAB), c.len(eCD))))
    pairs = [(A, C), (B, Dp), (A, Dp), (B, C)]
    pos = [c.positions(E[p], l) for p in pairs]

    def entry(t, r, s):
        (i, j), row = c.map_item(eAB, r)
        (k, m), col = c.map_item(eCD, s)
        ac, bd, ad, bc = [p(t) for p in pos]
        v = D[(A, C)](ac, i, k) * D[(B, Dp)](bd, j, m) + D[(A, Dp)](ad, i, m) * D[(B, C)](bc, j, k)
        return c.eq(c.get(cov, t, row, col), c.div(v, 2 * c.get(l, t) + 1))
    c.forall('entry', [c.len(l), c.len(eAB), c.len(eCD)], entry)
    c.ensure_common('multipoles', l, [E[p] for p in pairs])


MAT_FNS = [FE + '.ClCovarianceMatrix.' + f for f in ('__init__', 'evaluateAllBlocks', 'maskCovBlocksToCommonElls', 'buildMatrix',
                                                     'computeCovBlock')] + COV_FNS[1:]


def built(c, keys, flip, stored=None):
    n, ells, cls, E, D = inputs(c, probes_of(keys), flip)
    dv = c.target('seyfert.fisher.datavector:ClDataVector')(keys)
    cov = c.target(FE + ':ClCovarianceMatrix')(dv)
    delta = SimpleNamespace(ell_dict=ells, delta_c_lij_array_dict=cls)
    cov.evaluateAllBlocks(delta)
    cov.maskCovBlocksToCommonElls()
    cov.buildMatrix()
    return n, E, D, cov


def layout(c, keys, n):
    """offsets of the blocks and their enumerations"""
    enum = c.target(LA + ':get_enumeration_map')
    es = [enum((n[k[:2]], n[k[2:]]), k[:2] == k[2:]) for k in keys]
    offs = [0]
    for k, e in zip(keys, es):
        a, b = n[k[:2]], n[k[2:]]
        c.ensure('number of entries', c.eq(2 * c.len(e), a * (a + 1) if k[:2] == k[2:] else 2 * a * b))
        offs.append(offs[-1] + c.len(e))
    return es, offs


@contract('P03', MAT_FNS, weight=8)
def matrix_blocks(c):
    """the full matrix at each common multipole: rows and columns run over the spectra of the data vector in order, each
    spectrum in its enumeration order; every entry is the two-product formula (the lower triangle the transposed upper one)"""
    keys = c.choice('data_vector', VECTORS)
    flip = c.choice('stored_reversed', [False, True])
    n, E, D, cov = built(c, keys, flip)
    check_matrix(c, keys, n, E, D, cov)


def check_matrix(c, keys, n, E, D, cov):
    l = cov.common_ells
    es, offs = layout(c, keys, n)
    c.ensure('shape', c.shape_eq(cov.matrix, (c.len(l), offs[-1], offs[-1])))
    used = sorted({tuple(sorted((p, q), key=ORD.index)) for a in keys for b in keys
                   for p, q in ((a[:2], b[:2]), (a[2:], b[2:]), (a[:2], b[2:]), (a[2:], b[:2]))})
    c.ensure_common('multipoles', l, [E[p] for p in used])
    pos = {p: c.positions(E[p], l) for p in used}
    pos.update({(q, p): pos[(p, q)] for p, q in used})
    for x, AB in enumerate(keys):
        for y, CD in enumerate(keys):
            a, b = (AB, CD) if x <= y else (CD, AB)
            ea, eb = (es[x], es[y]) if x <= y else (es[y], es[x])
            A, B, C, Dp = a[:2], a[2:], b[:2], b[2:]

            def entry(t, r, s):
                (i, j), row = c.map_item(ea, r)
                (k, m), col = c.map_item(eb, s)
                v = D[(A, C)](pos[(A, C)](t), i, k) * D[(B, Dp)](pos[(B, Dp)](t), j, m) + \
                    D[(A, Dp)](pos[(A, Dp)](t), i, m) * D[(B, C)](pos[(B, C)](t), j, k)
                rr, cc = (offs[x] + row, offs[y] + col) if x <= y else (offs[x] + col, offs[y] + row)
                return c.eq(c.get(cov.matrix, t, rr, cc), c.div(v, 2 * c.get(l, t) + 1))
            c.forall(f'block', [c.len(l), c.len(ea), c.len(eb)], entry)
