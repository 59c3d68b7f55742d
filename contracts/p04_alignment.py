"""Common multipoles: spectra on different grids are combined only where all are given, values staying with their multipole."""
from pyver.api import contract

FE = 'seyfert.fisher.fisher_evaluator'
FU = 'seyfert.fisher.fisher_utils'
AU = 'seyfert.utils.array_utils'


def grid(c, name, sorted_=True):
    L = c.int('L_' + name, 1, conc=(1, 6))
    return c.array('ell_' + name, (L,), increasing=True, positive=True,
                   gen=lambda r, s: 1.0 + 0.75 * r.choice(s[0] + 3, s[0], replace=False))


@contract('P04', [AU + '.compute_arrays_intersection1d'])
def intersection(c):
    """the common values of one to four increasing grids, in increasing order, each once"""
    n = c.choice('grids', [1, 2, 3, 4])
    gs = [grid(c, str(k)) for k in range(n)]
    l = c.target(AU + ':compute_arrays_intersection1d')(gs)
    c.ensure_common('common', l, gs)


@contract('P04', [AU + '.compute_arrays_union1d'])
def union(c):
    """the values of two or three increasing grids, in increasing order, each once"""
    n = c.choice('grids', [2, 3])
    gs = [grid(c, str(k)) for k in range(n)]
    l = c.target(AU + ':compute_arrays_union1d')(gs)
    ms = [c.member(g) for g in gs]
    ml = c.member(l)
    N = c.len(l)
    c.forall('present', [N], lambda t: c.or_(*[m(c.get(l, t)) for m in ms]))
    c.forall('increasing', [N], lambda t: c.implies(t + 1 < N, c.get(l, t) < c.get(l, t + 1))
             if c.sym else (t + 1 >= N or c.get(l, t) < c.get(l, t + 1)))
    for g in gs:
        c.forall('complete', [c.len(g)], lambda s: ml(c.get(g, s)))


@contract('P04', [FE + '.mask_cl_blocks_to_common_ells', AU + '.compute_arrays_intersection1d'], weight=2)
def blocks_on_common_multipoles(c):
    """every block keeps exactly its slices at the common multipoles, in increasing order of multipole"""
    n = c.choice('blocks', [1, 2, 3])
    es, xs, shp = {}, {}, {}
    for k in range(n):
        es[f'k{k}'] = grid(c, str(k))
        shp[f'k{k}'] = (c.int(f'n{k}', 1, conc=(1, 3)), c.int(f'm{k}', 1, conc=(1, 3)))
        xs[f'k{k}'] = c.array(f'X{k}', (c.len(es[f'k{k}']),) + shp[f'k{k}'])
    l, out = c.target(FE + ':mask_cl_blocks_to_common_ells')(dict(es), dict(xs))
    c.ensure('keys', set(out.keys()) == set(xs))
    c.ensure_common('multipoles', l, list(es.values()))
    for k in xs:
        c.ensure('shape', c.shape_eq(out[k], (c.len(l),) + shp[k]))
        pos = c.positions(es[k], l)
        c.forall('value', [c.len(l), shp[k][0], shp[k][1]], lambda t, i, j: c.eq(c.get(out[k], t, i, j), c.get(xs[k], pos(t), i, j)))


LONG = ['PhotometricGalaxy', 'SpectroscopicGalaxy', 'Lensing', 'Void']


@contract('P04', [FU + '.buildXCBlockMatrixForProbes', AU + '.compute_arrays_intersection1d'], weight=6)
def block_matrix_of_probes(c):
    """block (p, q) at each common multipole is the spectrum of p and q, the transposed one when stored as (q, p)"""
    probes = c.choice('probes', [LONG[:1], LONG[:2], [LONG[2], LONG[0]], [LONG[0], LONG[2], LONG[3]]])
    flip = c.choice('stored_reversed', [False, True])
    extra = c.choice('unrelated_spectrum', [False, True])
    n = {p: c.int('n_' + p, 1, conc=(1, 3)) for p in probes}
    M, E, D, Eof = {}, {}, {}, {}
    for a in range(len(probes)):
        for b in range(a, len(probes)):
            p, q = probes[a], probes[b]
            if p != q and flip:
                p, q = q, p
            key = p + '_' + q
            E[key] = grid(c, key)
            x = M[key] = c.array('D_' + key, (c.len(E[key]), n[p], n[q]))
            D[(p, q)] = (lambda x: lambda t, i, j: c.get(x, t, i, j))(x)
            Eof[(p, q)] = Eof[(q, p)] = E[key]
            if p != q:
                D[(q, p)] = (lambda x: lambda t, i, j: c.get(x, t, j, i))(x)
    used = list(E.values())
    if extra:
        k = LONG[1] + '_' + LONG[3]
        E[k] = grid(c, 'extra')
        M[k] = c.array('extra', (c.len(E[k]), 2, 2))
    l, m = c.target(FU + ':buildXCBlockMatrixForProbes')(probes=list(probes), matrix_dict=dict(M), l_dict=dict(E))
    c.ensure_common('multipoles', l, used)
    offs = [0]
    for p in probes:
        offs.append(offs[-1] + n[p])
    c.ensure('shape', c.shape_eq(m, (c.len(l), offs[-1], offs[-1])))
    for a, p in enumerate(probes):
        for b, q in enumerate(probes):
            pos = c.positions(Eof[(p, q)], l)
            c.forall('block', [c.len(l), n[p], n[q]], lambda t, i, j: c.eq(
                c.get(m, t, offs[a] + i, offs[b] + j), D[(p, q)](pos(t), i, j)))


@contract('P04', [FU + '.buildXCBlockMatrixForProbes'])
def missing_spectrum_rejected(c):
    """a pair with neither order stored is refused"""
    probes = LONG[:2]
    missing = c.choice('missing', [(0, 0), (0, 1), (1, 1)])
    M, E = {}, {}
    for a in range(2):
        for b in range(a, 2):
            if (a, b) != missing:
                key = probes[a] + '_' + probes[b]
                E[key] = grid(c, key)
                M[key] = c.array('D' + key, (c.len(E[key]), 2, 2))
    c.raises('rejected', KeyError, lambda: c.target(FU + ':buildXCBlockMatrixForProbes')(probes=probes, matrix_dict=M, l_dict=E))
