"""Vectorisation of (symmetric) matrices: one fixed column-by-column layout shared by every user of it."""
from pyver.api import contract

LA = 'seyfert.fisher.linalg_tools'
FU = 'seyfert.fisher.fisher_utils'


@contract('P02', [LA + '.get_enumeration_map', LA + '.triu_idxs_by_col', LA + '._get_idxs_by'])
def enumeration_symmetric(c):
    """entry p of the half enumeration is the pair (i, j), i <= j, with p = j(j+1)/2 + i, and all pairs are enumerated"""
    n = c.int('n', 1, conc=(1, 9))
    enum = c.target(LA + ':get_enumeration_map')((n, n), True)
    c.ensure('count', c.eq(c.len(enum), n * (n + 1) // 2))

    def entry(p):
        (i, j), q = c.map_item(enum, p)
        return [c.eq(q, p), c.and_(0 <= i, i <= j, j < n), c.eq(p, c.div(j * (j + 1), 2) + i)]
    c.forall('entry', [c.len(enum)], entry)


@contract('P02', [LA + '.get_enumeration_map'])
def enumeration_full(c):
    """entry p of the full enumeration is the pair (i, j) with p = i + nA * j"""
    n = c.int('nA', 1, conc=(1, 6))
    m = c.int('nB', 1, conc=(1, 6))
    enum = c.target(LA + ':get_enumeration_map')((n, m), False)
    c.ensure('count', c.eq(c.len(enum), n * m))

    def entry(p):
        (i, j), q = c.map_item(enum, p)
        return [c.eq(q, p), c.and_(0 <= i, i < n, 0 <= j, j < m), c.eq(p, i + n * j)]
    c.forall('entry', [c.len(enum)], entry)


@contract('P02', [LA + '.get_enumeration_map'])
def enumeration_rejects(c):
    """a symmetric enumeration of a non-square block is rejected"""
    n = c.int('nA', 1, conc=(1, 6))
    m = c.int('nB', 1, conc=(1, 6))
    c.require(n != m)
    c.raises('rejected', Exception, lambda: c.target(LA + ':get_enumeration_map')((n, m), True))


@contract('P02', [LA + '.vecp', LA + '.get_enumeration_map'])
def vecp_layout(c):
    """vecp(A) lists A[i, j], i <= j, in the half enumeration's order"""
    n = c.int('n', 1, conc=(1, 9))
    A = c.array('A', (n, n))
    v = c.target(LA + ':vecp')(A)
    enum = c.target(LA + ':get_enumeration_map')((n, n), True)
    c.ensure('length', c.shape_eq(v, (n * (n + 1) // 2,)))

    def entry(p):
        (i, j), q = c.map_item(enum, p)
        return c.eq(c.get(v, q), c.get(A, i, j))
    c.forall('entry', [c.len(enum)], entry)


@contract('P02', [LA + '.vec', LA + '.get_enumeration_map'])
def vec_layout(c):
    """vec(A) lists A column by column, in the full enumeration's order"""
    n = c.int('n', 1, conc=(1, 6))
    m = c.int('m', 1, conc=(1, 6))
    A = c.array('A', (n, m))
    v = c.target(LA + ':vec')(A)
    enum = c.target(LA + ':get_enumeration_map')((n, m), False)
    c.ensure('length', c.shape_eq(v, (n * m,)))

    def entry(p):
        (i, j), q = c.map_item(enum, p)
        return c.eq(c.get(v, q), c.get(A, i, j))
    c.forall('entry', [c.len(enum)], entry)


@contract('P02', [LA + '.vecp'])
def vecp_rejects(c):
    n = c.int('nA', 1, conc=(1, 6))
    m = c.int('nB', 1, conc=(1, 6))
    A = c.array('A', (n, m))
    c.require(n != m)
    c.raises('rejected', Exception, lambda: c.target(LA + ':vecp')(A))


@contract('P02', [LA + '.unvecp', LA + '.vecp', LA + '.diag_idxs'])
def unvecp_inverts_vecp(c):
    """unvecp(vecp(A)) == A for every symmetric A"""
    n = c.int('n', 1, conc=(1, 9))
    A = c.array('A', (n, n), symmetric=True)
    B = c.target(LA + ':unvecp')(c.target(LA + ':vecp')(A))
    c.ensure('shape', c.shape_eq(B, (n, n)))
    c.forall('entry', [n, n], lambda i, j: c.eq(c.get(B, i, j), c.get(A, i, j)))


@contract('P02', [LA + '.unvec', LA + '.vec'])
def unvec_inverts_vec(c):
    n = c.int('n', 1, conc=(1, 9))
    A = c.array('A', (n, n))
    B = c.target(LA + ':unvec')(c.target(LA + ':vec')(A))
    c.ensure('shape', c.shape_eq(B, (n, n)))
    c.forall('entry', [n, n], lambda i, j: c.eq(c.get(B, i, j), c.get(A, i, j)))


@contract('P02', [FU + '.vecpClArray', LA + '.vecp'])
def vecp_per_multipole(c):
    L = c.int('L', 1, conc=(1, 5))
    n = c.int('n', 1, conc=(1, 7))
    A = c.array('C', (L, n, n))
    v = c.target(FU + ':vecpClArray')(A)
    enum = c.target(LA + ':get_enumeration_map')((n, n), True)
    c.ensure('shape', c.shape_eq(v, (L, n * (n + 1) // 2)))

    def entry(l, p):
        (i, j), q = c.map_item(enum, p)
        return c.eq(c.get(v, l, q), c.get(A, l, i, j))
    c.forall('entry', [L, c.len(enum)], entry)


@contract('P02', [FU + '.vecClArray', LA + '.vec'])
def vec_per_multipole(c):
    L = c.int('L', 1, conc=(1, 5))
    n = c.int('n', 1, conc=(1, 5))
    m = c.int('m', 1, conc=(1, 5))
    A = c.array('C', (L, n, m))
    v = c.target(FU + ':vecClArray')(A)
    enum = c.target(LA + ':get_enumeration_map')((n, m), False)
    c.ensure('shape', c.shape_eq(v, (L, n * m)))

    def entry(l, p):
        (i, j), q = c.map_item(enum, p)
        return c.eq(c.get(v, l, q), c.get(A, l, i, j))
    c.forall('entry', [L, c.len(enum)], entry)
