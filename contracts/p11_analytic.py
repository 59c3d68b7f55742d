"""Analytic derivative of the angular spectra with respect to galaxy bias values."""
from types import SimpleNamespace
from pyver.api import contract
from contracts.p15_density import edges

DI = 'seyfert.derivatives.differentiator'
A = DI + '.AnalyticClDifferentiator.'
CL = 'seyfert.cosmology.c_ells:AngularCoefficient'
PH, SP, WL, VD = 'PhotometricGalaxy', 'SpectroscopicGalaxy', 'Lensing', 'Void'
PAIRS = [(PH, PH), (PH, SP), (PH, WL), (SP, SP), (SP, WL), (WL, SP), (WL, WL), (VD, PH)]
FNS = [A + 'doComputeDerivative', DI + '.ClDifferentiator.computeDerivative', CL.replace(':', '.') + '.getWeightFunction']


def setting(c, p1, p2, probe, model, n1, n2):
    """a spectrum of two probes and the bias parameter of one bin of a galaxy probe"""
    short = {PH: 'bgph', SP: 'bgsp', WL: 'aIA', VD: 'voidbias'}[probe]
    k = c.choice('bin', [0, 1, 2, 9, 10, 12])
    L = c.int('L', 1, conc=(1, 4))
    cl = c.target(CL)(probe1=p1, probe2=p2)
    cl.c_lij = c.array('C', (L, n1, n2))
    bias = SimpleNamespace(model_name=model)
    w1 = SimpleNamespace(bias=bias if p1 == probe else SimpleNamespace(model_name='other'), z_bin_edges=edges(c, 'other_edges_1', k + 1))
    w2 = w1 if p1 == p2 else SimpleNamespace(bias=bias if p2 == probe else SimpleNamespace(model_name='other'),
                                             z_bin_edges=edges(c, 'other_edges_2', k + 1))
    cl.kernel = SimpleNamespace(weight1=w1, weight2=w2)
    PP = c.target('seyfert.cosmology.parameter:PhysicalParameter')
    b = c.real('b', positive=True, conc=(0.8, 3))
    par = PP(name=f'{short}{k}', kind=PP.NUISANCE_PAR_STRING, probe=probe, fiducial=b, current_value=c.real('b_now', positive=True, conc=(0.8, 3)), is_free_parameter=True)
    d = c.target(DI + ':AnalyticClDifferentiator')(probe1=p1, probe2=p2, param=par)
    d.fiducial_cl = cl
    return d, cl, k, b, L


def sizes(c, p1, p2):
    n1 = c.int('n1', 1, conc=(1, 13))
    return n1, (n1 if p1 == p2 else c.int('n2', 1, conc=(1, 13)))


@contract('P11', FNS, weight=3, bound='bias bins 0, 1, 2, 9, 10 and 12; every spectrum, size and value')
def constant_bias_derivative(c):
    """constant bias: the derivative is C/b in the row (column) of the bin for the first (second) probe, both added for an auto-correlation"""
    p1, p2 = c.choice('pair', PAIRS[:6])
    probe = c.choice('probe', [PH, SP])
    if probe not in (p1, p2):
        return
    n1, n2 = sizes(c, p1, p2)
    d, cl, k, b, L = setting(c, p1, p2, probe, 'constant', n1, n2)
    r = d.computeDerivative()
    c.ensure('shape', c.shape_eq(r, (L, n1, n2)))

    def expected(l, i, j):
        n = (c.ite(c.eq(i, k), 1, 0) if probe == p1 else 0) + (c.ite(c.eq(j, k), 1, 0) if probe == p2 else 0)
        return c.eq(c.get(r, l, i, j), c.div(n * c.get(cl.c_lij, l, i, j), b))
    c.forall('derivative', [L, n1, n2], expected)


@contract('P11', FNS, weight=3, bound='bias bins 0, 1, 2, 9, 10 and 12; every spectrum, size, edge, grid and value')
def piecewise_bias_derivative(c):
    """piecewise bias: the derivative is the part of the redshift integral inside the bin over b, once per occurrence of the probe"""
    p1, p2 = c.choice('pair', PAIRS[:6])
    probe = c.choice('probe', [PH, SP])
    if probe not in (p1, p2):
        return
    n1, n2 = sizes(c, p1, p2)
    d, cl, k, b, L = setting(c, p1, p2, probe, 'piecewise', n1, n2)
    nz = c.int('nz', 4, conc=(250, 300))
    E = edges(c, 'edges', k + 1)
    import numpy as np
    z = c.array('z', (nz,), increasing=True, positive=True, gen=lambda r, s: np.linspace(0.05, 2.2, s[0]))
    G = c.array('integrand', (n1, n2, L, nz))
    cl.cosmology = SimpleNamespace(z_grid=z)
    cl.getWeightFunction(probe).z_bin_edges = E
    done = []
    cl.evaluateLimberApproximatedPowerSpectrum = lambda: done.append(1)
    cl.getLimberRedshiftIntegrand = lambda i, j: G[i, j] if done else None
    inside = (z >= E[k]) & (z <= E[k + 1])
    r = d.computeDerivative()
    c.ensure('shape', c.shape_eq(r, (L, n1, n2)))
    zin = z[inside]
    times = int(probe == p1) + int(probe == p2)

    def expected(l, i, j):
        return c.eq(c.get(r, l, i, j), c.div(times * c.simps(G[i, j, l][inside], zin), b))
    c.forall('derivative', [L, n1, n2], expected)


@contract('P11', FNS, weight=1, trials=60)
def unrelated_parameter(c):
    """the derivative with respect to a parameter of a probe outside the pair is exactly zero"""
    p1, p2 = c.choice('pair', PAIRS)
    probe = c.choice('probe', [PH, SP, WL, VD])
    if probe in (p1, p2):
        return
    n1, n2 = sizes(c, p1, p2)
    d, cl, k, b, L = setting(c, p1, p2, probe, c.choice('model', ['constant', 'piecewise']), n1, n2)
    d.doComputeDerivative = None
    r = d.computeDerivative()
    c.ensure('shape', c.shape_eq(r, (L, n1, n2)))
    c.forall('zero', [L, n1, n2], lambda l, i, j: c.eq(c.get(r, l, i, j), 0))


@contract('P11', FNS, weight=1, trials=60)
def not_analytic(c):
    """parameters that are no galaxy bias, and bias models without an analytic form, are refused instead of guessed"""
    p1, p2 = c.choice('pair', [(PH, PH), (PH, SP), (WL, WL)])
    n1, n2 = sizes(c, p1, p2)
    model = c.choice('model', ['constant', 'euclid_flagship_photo', 'vdn_void'])
    d, cl, k, b, L = setting(c, p1, p2, p1, model, n1, n2)
    PP = c.target('seyfert.cosmology.parameter:PhysicalParameter')
    kind = c.choice('parameter', ['bias', 'cosmological', 'nuisance'])
    if kind == 'cosmological':
        d.param = PP(name='h', kind=PP.COSMO_PAR_STRING, fiducial=b, current_value=b, is_free_parameter=True)
    elif kind == 'nuisance':
        d.param = PP(name='aIA', kind=PP.NUISANCE_PAR_STRING, probe=p1, fiducial=b, current_value=b, is_free_parameter=True)
    elif p1 == WL or model == 'constant':
        return
    c.raises('refused', NotImplementedError, lambda: d.computeDerivative())
