"""Parameter displacement grid and the displaced parameter collections."""
from pyver.api import contract

PM = 'seyfert.cosmology.parameter'
PP, PC = PM + '.PhysicalParameter.', PM + '.PhysicalParametersCollection.'
COSMO, NUIS = "CosmologicalParameter", "NuisanceParameter"


def par(c, name, free=True, kind=COSMO, probe=None, current=True, factor=True, fiducial=None):
    f = c.real('fiducial_' + name) if fiducial is None else fiducial
    kw = {}
    if current:
        kw['current_value'] = c.real('current_' + name)
    if factor:
        kw['stem_factor'] = c.real('factor_' + name)
    p = c.target(PM + ':PhysicalParameter')(name=name, fiducial=f, kind=kind, is_free_parameter=free, probe=probe, **kw)
    return p, f, kw.get('stem_factor', 1)


def displaced(c, f, k, eps):
    return f + c.ite(c.eq(f, 0), eps * k, eps * k * f)


@contract('P09', [PP + 'computeValueForDisplacement', PP + 'updateValueForDisplacement', PP + 'resetCurrentValueToFiducial'])
def displaced_value(c):
    """fiducial·(1 + ε·factor), or ε·factor when the fiducial is zero"""
    p, f, k = par(c, 'h', factor=c.choice('factor_given', [True, False]), current=c.choice('current_given', [True, False]))
    eps = c.real('eps')
    c.ensure('value', c.eq(p.computeValueForDisplacement(eps), displaced(c, f, k, eps)))
    p.updateValueForDisplacement(eps)
    c.ensure('updated', c.eq(p.current_value, displaced(c, f, k, eps)))
    p.updateValueForDisplacement(eps)
    c.ensure('updated again', c.and_(c.eq(p.current_value, displaced(c, f, k, eps)), c.eq(p.fiducial, f)))
    p.resetCurrentValueToFiducial()
    c.ensure('reset', c.eq(p.current_value, f))


def base(c, n, increasing=True):
    b = []
    for q in range(n):
        x = c.real(f'd{q}', positive=True, conc=(0.01, 0.1))
        b.append(b[-1] + x if increasing and b else x)
    return b


@contract('P09', [PC + 'loadStemDisplacements', PC + '__init__'])
def displacement_grid(c):
    """steps -n..-1, 1..n numbered in increasing order of the 2n displacements ±d"""
    n = c.choice('n', [1, 2, 3, 4, 7])
    b = base(c, n)
    order = c.choice('given', ['increasing', 'decreasing', 'array'])
    given = b[::-1] if order == 'decreasing' else list(b)
    if order == 'array':
        given = c.np().array(given)
    pc = c.target(PM + ':PhysicalParametersCollection')(base_stem_disps=given)
    full = [-x for x in b[::-1]] + b
    steps = list(range(-n, 0)) + list(range(1, n + 1))
    c.ensure('number', c.len(pc.stem_disps) == 2 * n)
    c.ensure('mapping size', len(pc.stem_dict) == 2 * n)
    for q in range(2 * n):
        c.ensure('increasing displacements', c.eq(pc.stem_disps[q], full[q]))
        c.ensure('steps', c.eq(pc.stem_steps[q], steps[q]))
        c.ensure('mapping', c.eq(pc.stem_dict[steps[q]], full[q]))


@contract('P09', [PP + 'computeSteMValues', PC + 'computePhysParSTEMValues', PC + 'loadStemDisplacements'], weight=2)
def displaced_values(c):
    """2n+1 values: those of the displacements in order with the fiducial at the centre"""
    n = c.choice('n', [1, 2, 3, 7])
    b = base(c, n)
    p, f, k = par(c, 'h')
    q, _, _ = par(c, 'ns')
    pc = c.target(PM + ':PhysicalParametersCollection')(base_stem_disps=list(b), data_dict={'h': p, 'ns': q})
    v = pc.computePhysParSTEMValues(dvar='h')
    full = [-x for x in b[::-1]] + [0] + b
    c.ensure('number', c.len(v) == 2 * n + 1)
    for t in range(2 * n + 1):
        c.ensure('value', c.eq(v[t], displaced(c, f, k, full[t])))


@contract('P09', [PC + 'updatePhysicalParametersForDvarStep', PC + 'resetPhysicalParametersToFiducial',
                  PP + 'updateValueForDisplacement'], weight=2)
def one_parameter_moves(c):
    """only the varied parameter moves, plus (flat universe) the complementary density, so that the total stays 1"""
    n = 2
    b = base(c, n)
    flat = c.choice('flat', [True, False])
    names = ['Omm', 'OmDE', 'h', 'b1']
    dvar = c.choice('varied', ['Omm', 'OmDE', 'h', 'b1', 'central'])
    fr = {'Omm': dvar != 'OmDE', 'OmDE': dvar == 'OmDE', 'h': True, 'b1': True}
    ps, fs, ks = {}, {}, {}
    for x in names:
        fid = 1 - fs['Omm'] if x == 'OmDE' else None
        ps[x], fs[x], ks[x] = par(c, x, free=fr[x], kind=NUIS if x == 'b1' else COSMO, probe='p' if x == 'b1' else None, fiducial=fid)
    cur = {x: ps[x].current_value for x in names}
    c.require(c.eq(fs['Omm'] + fs['OmDE'], 1))
    if not c.sym:
        c.require(fs['Omm'] + fs['OmDE'] == 1)
    pc = c.target(PM + ':PhysicalParametersCollection')(base_stem_disps=list(b), data_dict=ps, is_universe_flat=flat)
    step = c.choice('step', [-2, -1, 1, 2])
    pc.updatePhysicalParametersForDvarStep(dvar=dvar, step=step)
    eps = (-1 if step < 0 else 1) * b[abs(step) - 1]
    for x in names:
        c.ensure('fiducial', c.eq(ps[x].fiducial, fs[x]))
        if dvar == 'central':
            want = fs[x]
        elif x == dvar:
            want = displaced(c, fs[x], ks[x], eps)
        elif flat and {x, dvar} == {'Omm', 'OmDE'}:
            want = 1 - displaced(c, fs[dvar], ks[dvar], eps)
        else:
            want = cur[x]
        c.ensure('current', c.eq(ps[x].current_value, want))


@contract('P09', [PC + 'updatePhysicalParametersForDvarStep'])
def inconsistent_variations_rejected(c):
    """a parameter that is not free cannot be varied; in a flat universe the densities cannot both be free, nor have fiducials
    that do not add up to one"""
    b = base(c, 1)
    case = c.choice('case', ['not free', 'both free', 'sum'])
    dv = c.choice('varied', ['Omm', 'OmDE'])
    om, fo, _ = par(c, 'Omm', free=case == 'both free' or (case == 'sum' and dv == 'Omm'))
    od, fd, _ = par(c, 'OmDE', free=case == 'both free' or (case == 'sum' and dv == 'OmDE'))
    if case == 'sum':
        c.require(c.or_(fo + fd > 1.001, fo + fd < 0.999))
    pc = c.target(PM + ':PhysicalParametersCollection')(base_stem_disps=list(b), data_dict={'Omm': om, 'OmDE': od}, is_universe_flat=True)
    c.raises('rejected', c.target(PM + ':ParameterError'), lambda: pc.updatePhysicalParametersForDvarStep(dvar=dv, step=1))


@contract('P09', [PC + x for x in ('cosmological_parameters', 'nuisance_parameters', 'free_physical_parameters',
                                   'free_cosmological_parameters', 'cosmo_pars_fiducials', 'free_cosmo_pars_fiducials',
                                   'cosmo_pars_current_values', 'getNuisanceParametersForProbe',
                                   'getFreeNuisanceParametersForProbe', 'getFreePhysicalParametersForProbe')])
def parameter_subsets(c):
    """the subsets of parameters partition by kind, freedom and probe, with the right values"""
    T = {'h': (COSMO, True, None), 'ns': (COSMO, False, None), 'b1': (NUIS, True, 'P'), 'b2': (NUIS, False, 'P'),
         'a': (NUIS, True, 'Q'), 'Omm': (COSMO, True, None)}
    ps = {n: par(c, n, free=fr, kind=kd, probe=pr)[0] for n, (kd, fr, pr) in T.items()}
    pc = c.target(PM + ':PhysicalParametersCollection')(data_dict=dict(ps))
    for what, got, want in [
            ('cosmological', pc.cosmological_parameters, ['h', 'ns', 'Omm']), ('nuisance', pc.nuisance_parameters, ['b1', 'b2', 'a']),
            ('free', pc.free_physical_parameters, ['h', 'b1', 'a', 'Omm']), ('free cosmological', pc.free_cosmological_parameters, ['h', 'Omm']),
            ('nuisance of probe', pc.getNuisanceParametersForProbe('P'), ['b1', 'b2']),
            ('free nuisance of probe', pc.getFreeNuisanceParametersForProbe('P'), ['b1']),
            ('free of other probe', pc.getFreeNuisanceParametersForProbe('Q'), ['a']),
            ('free of probe', pc.getFreePhysicalParametersForProbe('P'), ['h', 'Omm', 'b1'])]:
        c.ensure(what, set(got) == set(want) and all(got[n] is ps[n] for n in want))
    for what, got, want, at in [('fiducials', pc.cosmo_pars_fiducials, ['h', 'ns', 'Omm'], 'fiducial'),
                                ('free fiducials', pc.free_cosmo_pars_fiducials, ['h', 'Omm'], 'fiducial'),
                                ('current values', pc.cosmo_pars_current_values, ['h', 'ns', 'Omm'], 'current_value')]:
        c.ensure(what, set(got) == set(want))
        for n in want:
            c.ensure(what, c.eq(got[n], getattr(ps[n], at)))


@contract('P09', [PP + '__eq__'])
def equal_parameters(c):
    """two parameters are equal exactly when name, kind, fiducial and current value are, so a displaced one differs from its fiducial"""
    P = c.target(PM + ':PhysicalParameter')
    f, g, x, y = [c.real(n) for n in ('fiducial', 'other_fiducial', 'current', 'other_current')]
    kind = c.choice('kind', [COSMO, NUIS])
    probe = None if kind == COSMO else 'Lensing'

    def one(name, fid, cur, kind=kind, probe=probe):
        return P(name=name, kind=kind, probe=probe, fiducial=fid, current_value=cur, is_free_parameter=True)
    p = one('h', f, x)
    c.ensure('itself', p == one('h', f, x))
    c.ensure('current', c.eq(bool(p == one('h', f, y)), c.eq(x, y)))
    c.ensure('fiducial', c.eq(bool(p == one('h', g, x)), c.eq(f, g)))
    c.ensure('name', not p == one('ns', f, x))
    c.ensure('kind', not p == one('h', f, x, *((NUIS, 'Lensing') if kind == COSMO else (COSMO, None))))
