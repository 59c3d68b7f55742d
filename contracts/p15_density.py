"""Redshift densities: normalised distributions, surface densities, shot noise, overlap of bins."""
from pyver.api import contract

RD = 'seyfert.cosmology.redshift_density'
C = RD + '.RedshiftDensity.'
PHOTO, SPECTRO = 'PhotometricGalaxy', 'SpectroscopicGalaxy'


def edges(c, name, n, lo=0.1, hi=2.0):
    """increasing bin edges"""
    import numpy as np
    return c.array(name, (n + 1,), increasing=True, positive=True,
                   gen=lambda r, s: lo + (hi - lo) * np.sort(r.choice(60, s[0], replace=False)) / 60)


def galaxy_density(c, tag, probe, nb, own=False):
    """a density object described by dN/dz sampled on its own redshift domain"""
    import numpy as np
    d = c.target(RD + ':RedshiftDensity')(probe=probe)
    m = c.int(tag + '_samples', 4, conc=(6, 12))
    d.input_z_domain = c.array(tag + '_z', (m,), increasing=True, positive=True, gen=lambda r, s: 0.05 + 2.15 * np.linspace(0., 1., int(m)) ** r.uniform(0.6, 1.6) + 0.01 * r.random())
    d.z_bin_edges = edges(c, tag + '_edges', nb)
    d.has_niz_from_input = own
    if own:
        d.input_n_iz = c.array(tag + '_niz', (nb, m), conc=(0.1, 2))
        d.dN_dOmega_bins = c.array(tag + '_N', (nb,), positive=True, conc=(0.5, 3))
    else:
        d.input_dN_dz_dOmega = c.array(tag + '_dn', (m,), conc=(0.5, 3))
        d.instrument_response = {k: c.real(f'{tag}_{k}', positive=True, conc=v) for k, v in (
            ('f_out', (0.05, 0.3)), ('z_b', (0., 0.1)), ('z_o', (0.05, 0.2)), ('sigma_b', (0.08, 0.15)), ('sigma_o', (0.08, 0.15)),
            ('c_b', (0.9, 1.1)), ('c_o', (0.9, 1.1)))}
    return d


@contract('P15', [RD + '.get_bins_overlap'], weight=1, trials=200)
def overlap_of_two_bins(c):
    """the overlap is the intersection of the two intervals, absent when they share no interval; reversed bins are refused"""
    f = c.target(RD + ':get_bins_overlap')
    v = [c.real(n, conc=(0, 3)) for n in ('a', 'b', 'p', 'q')]
    a, b, p, q = v
    bad = c.choice('order', ['ok', 'first', 'second'])
    if bad == 'first':
        c.require(b <= a)
        c.raises('reversed first bin refused', Exception, lambda: f(a, b, p, q))
        return
    if bad == 'second':
        c.require(q <= p)
        c.raises('reversed second bin refused', Exception, lambda: f(a, b, p, q))
        return
    c.require(a < b)
    c.require(p < q)
    r = f(a, b, p, q)
    lo, hi = c.ite(a >= p, a, p), c.ite(b <= q, b, q)
    if r is None:
        c.ensure('absent only when disjoint', c.not_(lo < hi))
    else:
        c.ensure('intersection', c.and_(c.eq(r[0], lo), c.eq(r[1], hi), lo < hi))


@contract('P15', [RD + '.compute_photoXspectro_shotnoise_ij', C + 'interpolateInput', RD + '.get_bins_overlap', C + 'n_bins', C + 'z_bin_centers'], weight=3)
def cross_noise(c):
    """photometric x spectroscopic noise: spectroscopic galaxies of the shared interval over the product of the two bins' counts"""
    n, m = c.int('photo_bins', 1, conc=(1, 4)), c.int('spectro_bins', 1, conc=(1, 4))
    ph, sp = galaxy_density(c, 'ph', PHOTO, n), galaxy_density(c, 'sp', SPECTRO, m)
    ph.dN_dOmega_bins = c.array('Nph', (n,), positive=True, conc=(0.5, 3))
    sp.dN_dOmega_bins = c.array('Nsp', (m,), positive=True, conc=(0.5, 3))
    if c.choice('used_before', [False, True]):  # with other input
        now = sp.input_dN_dz_dOmega
        sp.input_dN_dz_dOmega = c.array('earlier_dn', now.shape, conc=(0.5, 3))
        sp.interpolateInput()
        sp.input_dN_dz_dOmega = now
    r = c.target(RD + ':compute_photoXspectro_shotnoise_ij')(ph, sp)
    dn = c.spline(sp.input_z_domain, sp.input_dN_dz_dOmega, ext=1)
    E, F = ph.z_bin_edges, sp.z_bin_edges

    def expected(i, j):
        a, b, p, q = c.get(E, i), c.get(E, i + 1), c.get(F, j), c.get(F, j + 1)
        lo, hi = c.ite(a >= p, a, p), c.ite(b <= q, b, q)
        v = c.div(c.quad(lambda x: dn(x), lo, hi), c.get(ph.dN_dOmega_bins, i) * c.get(sp.dN_dOmega_bins, j))
        return c.eq(c.get(r, i, j), c.ite(lo < hi, v, 0))
    c.ensure('shape', c.shape_eq(r, (n, m)))
    c.forall('cross noise', [n, m], expected)


@contract('P15', [C + f for f in ('evaluateSurfaceDensity', 'computeSurfaceDensityAtBin', 'shot_noise', 'setUp', 'interpolateInput', 'n_bins')], weight=2)
def surface_densities(c):
    """galaxies per steradian of a bin: integral of dN/dz over the bin; the shot noise is its inverse"""
    own = c.choice('own distributions', [False, True])
    nb = c.int('bins', 1, conc=(1, 4))
    d = galaxy_density(c, 'd', PHOTO, nb, own)
    d.interpolateInput()
    before = d.dN_dOmega_bins
    d.evaluateSurfaceDensity()
    c.ensure('one per bin', c.shape_eq(d.dN_dOmega_bins, (nb,)))
    if own:
        c.forall('stored counts are kept', [nb], lambda i: c.eq(c.get(d.dN_dOmega_bins, i), c.get(before, i)))
    else:
        s = c.spline(d.input_z_domain, d.input_dN_dz_dOmega, ext=1)
        c.forall('count of the bin', [nb], lambda i: c.eq(
            c.get(d.dN_dOmega_bins, i), c.quad(lambda x: s(x), c.get(d.z_bin_edges, i), c.get(d.z_bin_edges, i + 1))))
        c.forall('nonzero', [nb], lambda i: True)
    noise = d.shot_noise
    c.forall('shot noise', [nb], lambda i: c.eq(c.get(noise, i), c.div(1, c.get(d.dN_dOmega_bins, i))))


@contract('P15', [C + 'computeTotalGalaxyNumber', C + 'interpolateInput'], weight=1)
def total_number(c):
    """total number of galaxies: integral of dN/dz/dOmega over the input domain times the sky area"""
    nb = c.int('bins', 1, conc=(1, 4))
    d = galaxy_density(c, 'd', PHOTO, nb)
    d.catalog_f_sky = c.real('f_sky', positive=True, conc=(0.1, 1))
    c.raises('not before being set up', Exception, lambda: d.computeTotalGalaxyNumber())
    d.interpolateInput()
    d.ready_to_evaluate = True
    pi = c.np().pi
    method = c.choice('method', ['simps', 'quad'])
    n = d.computeTotalGalaxyNumber(integ_method=method)
    if method == 'simps':
        w = c.simps(d.input_dN_dz_dOmega, d.input_z_domain)
        c.ensure('default', c.eq(d.computeTotalGalaxyNumber(), n))
    else:
        s = c.spline(d.input_z_domain, d.input_dN_dz_dOmega, ext=1)
        w = c.quad(lambda x: s(x), c.get(d.input_z_domain, 0), c.get(d.input_z_domain, c.len(d.input_z_domain) - 1))
    c.ensure('total', c.eq(n, w * 4 * pi * d.catalog_f_sky))
    c.raises('unknown method refused', KeyError, lambda: d.computeTotalGalaxyNumber(integ_method='other'))


def gauss(c, zp, z, zm, s, k, a):
    pi = c.np().pi
    w = s * (1 + z)
    return c.div(a, c.sqrt(2 * pi) * w) * c.exp(-c.div((z - k * zp - zm) ** 2, 2 * w ** 2))


@contract('P15', [C + 'modifiedGaussianResponse', C + 'computeInstrumentResponse', C + 'setUp'], weight=1)
def instrument_response(c):
    """response: the two Gaussians of the well- and badly-measured redshifts, weighted by 1-f_out and f_out"""
    nb = c.int('bins', 1, conc=(1, 2))
    d = galaxy_density(c, 'd', PHOTO, nb)
    if c.sym:
        c.patch(RD + ':RedshiftDensity.evaluateBinNormFactors', lambda self: None)
    d.setUp()
    c.ensure('ready', bool(d.ready_to_evaluate))
    zp, z = c.real('zp', positive=True, conc=(0.2, 2)), c.real('z', positive=True, conc=(0.2, 2))
    p = d.instrument_response
    v = d.computeInstrumentResponse(zp, z)
    c.ensure('response', c.eq(v, gauss(c, zp, z, p['z_b'], p['sigma_b'], p['c_b'], 1 - p['f_out']) +
                              gauss(c, zp, z, p['z_o'], p['sigma_o'], p['c_o'], p['f_out'])))


@contract('P15', [C + f for f in ('setUp', 'evaluate', 'evaluateBinNormFactors', 'computeBinNormFactor', 'convolvedNdzdOmegaWithInstrumentResponse',
                                  'computeNormalizedDensityAtBinAndRedshift', 'z_min', 'z_max', 'interpolateInput')], weight=3, trials=4)
def normalised_densities(c):
    """each bin's distribution is response x dN/dz scaled by its own integral, hence integrates to one, on scalars and on grids"""
    nb = c.int('bins', 1, conc=(1, 3))
    d = galaxy_density(c, 'd', PHOTO, nb)
    if c.sym:
        resp = c.fn('response', 2)
        c.patch(RD + ':RedshiftDensity.computeInstrumentResponse', lambda self, zp, z: resp(zp, z))
    d.setUp()
    s = c.spline(d.input_z_domain, d.input_dN_dz_dOmega, ext=1)
    lo, hi = c.get(d.input_z_domain, 0), c.get(d.input_z_domain, c.len(d.input_z_domain) - 1)
    raw = lambda i, z: c.quad(lambda x: d.computeInstrumentResponse(x, z), c.get(d.z_bin_edges, i), c.get(d.z_bin_edges, i + 1)) * s(z)
    i = c.int('bin', 0, conc=(0, 2))
    c.require(i < nb)
    norm = c.get(d.bin_norm_factors, i)
    c.ensure('norm of the bin', c.eq(norm, c.quad(lambda z: raw(i, z), lo, hi)))
    n = c.int('grid', 1, conc=(1, 5))
    z = c.array('zgrid', (n,), positive=True, conc=(0.3, 1.9))
    d.evaluate(z)
    c.ensure('shape', c.shape_eq(d.norm_density_iz, (nb, n)))
    c.forall('density', [(i, i + 1), n], lambda j, k: c.eq(c.get(d.norm_density_iz, j, k), c.div(raw(j, c.get(z, k)), c.get(d.bin_norm_factors, j))))
    if c.sym:
        c.require(norm != 0)
    c.ensure('integrates to one', c.eq(c.quad(lambda x: d.computeNormalizedDensityAtBinAndRedshift(i, x), lo, hi), 1))


@contract('P15', [C + f for f in ('setUp', 'evaluate', 'computeNormalizedDensityAtBinAndRedshift', 'interpolateInput')], weight=2)
def given_densities(c):
    """distributions supplied by the user are interpolated bin by bin, and are zero outside their domain"""
    nb = c.int('bins', 1, conc=(1, 3))
    d = galaxy_density(c, 'd', PHOTO, nb, own=True)
    c.raises('not before being set up', Exception, lambda: d.evaluate(c.array('zz', (2,))))
    d.setUp()
    n = c.int('grid', 1, conc=(1, 5))
    z = c.array('zgrid', (n,), positive=True, conc=(0.01, 2.5))
    if c.choice('used before', [False, True]):
        d.evaluate(c.array('zbefore', (n,), positive=True, conc=(0.3, 1.9)))
        if c.choice('input replaced', [False, True]):
            d.input_n_iz = c.array('other_n', tuple(d.input_n_iz.shape), positive=True)
            d.setUp()
    d.evaluate(z)
    c.ensure('grid kept', d.z_grid is z)
    c.ensure('shape', c.shape_eq(d.norm_density_iz, (nb, n)))

    def expected(i, k):
        s = c.spline(d.input_z_domain, d.input_n_iz[i, :], ext=1)
        return c.eq(c.get(d.norm_density_iz, i, k), s(c.get(z, k)))
    c.forall('interpolated', [nb, n], expected)
    c.forall('zero outside', [nb, n], lambda i, k: c.implies(
        c.or_(c.get(z, k) < c.get(d.input_z_domain, 0), c.get(z, k) > c.get(d.input_z_domain, c.len(d.input_z_domain) - 1)),
        c.eq(c.get(d.norm_density_iz, i, k), 0)))
    c.raises('not convolved twice', Exception, lambda: d.convolvedNdzdOmegaWithInstrumentResponse(z, 0))
