"""What a configuration file says is what the forecast uses: probes, multipoles, files, parameters, and the options of the editor."""
import copy
import itertools
from pathlib import Path
from types import SimpleNamespace as ns
from pyver.api import contract

FC = 'seyfert.config.forecast_config'
PR = 'seyfert.config.probe_config'
MC = 'seyfert.config.main_config'
JI = 'seyfert.file_io.json_io'
PM = 'seyfert.cosmology.parameter'
F, P, J = FC + '.ForecastConfig.', PR + '.ProbeConfig.', JI + '.JSONForecastConfig.'
LONG = {'WL': 'Lensing', 'GCph': 'PhotometricGalaxy', 'GCsp': 'SpectroscopicGalaxy', 'V': 'Void'}
COSMO, NUIS = "CosmologicalParameter", "NuisanceParameter"


def entry(c, k, present, own=None, extra=(), **kw):
    """the entry of a probe; the numbers differ from probe to probe"""
    q = list(LONG).index(k)
    d = {'presence_flag': present, 'l_min': 10 + q, 'l_max': 14 + 2 * q, 'ell_log_selection': False, 'log_l_number': 100,
         'density_file': f'dndz_{k}.h5', 'extra_nuisance_parameters': list(extra), 'specific_settings': {'setting': k}}
    if k != 'WL':
        d.update(bias_file=f'bias_{k}.h5', bias_derivative_method=f'method {k}', marginalize_bias_flag=kw.pop('free', True))
    d.update(kw)
    return d


def par(c, name, kind=COSMO, free=True, probe=None, **kw):
    d = {'name': name, 'fiducial': c.real('fiducial_' + name), 'current_value': c.real('current_' + name), 'kind': kind, 'is_free_parameter': free,
         'stem_factor': c.real('factor_' + name), 'derivative_method': 'SteM', 'units': 'None'}
    if probe:
        d['probe'] = probe
    return dict(d, **kw)


def document(c, present, order=('WL', 'GCph', 'GCsp', 'V'), cosmo=None, disps=None, flat=True, probes=None, survey=None):
    return {'metadata': {}, 'synthetic_opts': {'scenario': 'optimistic', 'n_sp_bins': 4, 'shot_noise_sp_reduced': False},
            'survey': survey or {'f_sky': 0.5, 'shot_noise_file': None},
            'cosmology': {'model_name': 'CPL', 'flat': flat, 'parameters': cosmo or []},
            'probes': {k: (probes or {}).get(k) or entry(c, k, k in present) for k in order},
            'derivative_settings': {'base_stem_disps': disps or [0.01]}}


def loaded(c, doc, nuisance=None):
    """the configuration of the document, as if read from a file; all input files exist; nuisance: bias file -> parameters"""
    def fake(file):
        return ns(nuisance_parameters=(nuisance or {}).get(Path(file).name))
    c.stub(PR + ':Bias.fromHDF5', staticmethod(fake))
    c.stub(PR + ':ProbeConfig.getProbeInitFile', lambda self, filename: self.input_data_dir / filename)
    f = c.target(FC + ':ForecastConfig')()
    f.input_data_dir = Path('/nowhere/data')
    f.json_config = c.target(JI + ':JSONForecastConfig')(data=doc)
    return f


@contract('P23', [F + f for f in ('loadProbeConfigurationsFromJSONConfig', 'present_probes', '__getitem__', 'survey_f_sky', '__init__')] + [P + f for f in ('loadFromJSONConfig', '__init__')]
          + [J + f for f in ('__init__', 'probes', 'survey', 'f_sky')], weight=3)
def probes_of_the_file(c):
    """exactly the probes flagged present, in the order of the file, each with the settings of its own entry"""
    order = c.choice('order', [('WL', 'GCph', 'GCsp', 'V'), ('V', 'GCsp', 'GCph', 'WL')])
    present = c.choice('present', [s for n in (1, 2, 3, 4) for s in itertools.combinations(LONG, n)])
    free = c.choice('marginalised', [True, False])
    fsky = c.real('f_sky', positive=True)
    doc = document(c, present, order, probes={k: entry(c, k, k in present, free=(k == 'GCph') == free) for k in LONG}, survey={'f_sky': fsky, 'shot_noise_file': None})
    before = copy.deepcopy(doc['probes'])
    f = loaded(c, doc)
    f.loadProbeConfigurationsFromJSONConfig()
    want = [LONG[k] for k in order if k in present]
    c.ensure('probes', f.present_probes == want)
    c.ensure('pairs', [tuple(x) for x in f.probes_combinations] == list(itertools.combinations_with_replacement(want, 2)))
    c.ensure('sky fraction', c.eq(f.survey_f_sky, fsky))
    c.ensure('no shot noise file', f.shot_noise_file is None)
    for k in order:
        if k not in present:
            continue
        p, d = f[LONG[k]], before[k]
        c.ensure('name', c.and_(p.long_name == LONG[k], p.alias_name == k))
        n = d['l_max'] - d['l_min']
        c.ensure('multipoles', c.and_(c.shape_eq(p.l_bin_centers, (n,)), *[c.eq(c.get(p.l_bin_centers, q), d['l_min'] + q + c.frac(1, 2)) for q in range(n)]))
        c.ensure('widths', c.and_(c.shape_eq(p.l_bin_widths, (n,)), *[c.eq(c.get(p.l_bin_widths, q), 1) for q in range(n)]))
        c.ensure('density file', p.density_init_file == Path('/nowhere/data') / d['density_file'])
        c.ensure('settings', p.specific_settings == d['specific_settings'])
        if k != 'WL':
            c.ensure('bias', c.and_(p.bias_init_file == Path('/nowhere/data') / d['bias_file'], p.marginalize_bias is d['marginalize_bias_flag'],
                                    p.bias_diff_method == d['bias_derivative_method']))
        else:
            c.ensure('no bias', p.bias_init_file is None)
    c.ensure('document unchanged', doc['probes'] == before)


@contract('P23', [F + 'loadConfiguration', F + '__init__', F + 'loadProbeConfigurationsFromJSONConfig'], weight=1, trials=10)
def configuration_from_a_file(c):
    """a configuration constructed from a file is the one described by that file: a named shot-noise file has to exist, and the
    parameters are loaded when asked for"""
    from contracts.p22_storage import Json
    import json
    if c.sym:
        js = Json()
        c.patch(JI + ':json', js)
        dump = js.dump
    else:
        dump = json.dump
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        d = Path(d)
        noise = c.choice('shot noise file', ['none', 'absent key', 'there', 'missing'])
        survey = {'f_sky': 0.25}
        if noise != 'absent key':
            survey['shot_noise_file'] = None if noise == 'none' else 'noise.h5'
        if noise == 'there':
            (d / 'shot_noise').mkdir()
            (d / 'shot_noise' / 'noise.h5').write_text('x')
        with_pars = c.choice('parameters', [True, False])
        doc = document(c, ['WL', 'GCph'], survey=survey, cosmo=[dict(par(c, 'h'), fiducial=0.5, current_value=0.5, stem_factor=1.0)])
        c.stub(PR + ':Bias.fromHDF5', staticmethod(lambda file: ns(nuisance_parameters={'bgph0': 1.5} if Path(file).name == 'bias_GCph.h5' else None)))
        for sub, name in (('.', 'dndz_WL.h5'), ('.', 'dndz_GCph.h5'), ('GCph', 'bias_GCph.h5')):
            (d / sub).mkdir(exist_ok=True)
            (d / sub / name).write_text('x')
        with open(d / 'cfg.json', 'w') as fp:
            dump(doc, fp)
        make = lambda: c.target(FC + ':ForecastConfig')(input_file=d / 'cfg.json', input_data_dir=c.choice('directory given as', [str, Path])(d), load_phys_params=with_pars)
        if noise == 'missing':
            c.raises('missing shot-noise file', FileNotFoundError, make)
            return
        f = make()
        c.ensure('probes', f.present_probes == ['Lensing', 'PhotometricGalaxy'])
        c.ensure('shot noise file', f.shot_noise_file == (d / 'shot_noise' / 'noise.h5' if noise == 'there' else None))
        c.ensure('bias file', f['PhotometricGalaxy'].bias_init_file == d / 'GCph' / 'bias_GCph.h5')
        c.ensure('flat', f.is_universe_flat is True)
        if with_pars:
            c.ensure('parameters', set(f.phys_pars) == {'h', 'bgph0'})
        else:
            c.ensure('parameters not asked for', f.phys_pars is None)


@contract('P23', [P + 'getProbeInitFile'], weight=1, trials=10)
def file_of_a_probe(c):
    """an input file is taken from the probe's own directory (short name first, then long name) before the common one, and a file
    found nowhere is refused"""
    import tempfile
    k = c.choice('probe', list(LONG))
    there = c.choice('there', [s for n in range(4) for s in itertools.combinations(('alias', 'long', 'top', 'other'), n)])
    with tempfile.TemporaryDirectory() as d:
        d = Path(d)
        dirs = {'alias': d / k, 'long': d / LONG[k], 'top': d, 'other': d / 'elsewhere'}
        for x in ('alias', 'long', 'other'):
            dirs[x].mkdir()
        for x in there:
            (dirs[x] / 'in.h5').write_text(x)
        (dirs['alias'] / 'another.h5').write_text('x')
        p = c.target(PR + ':ProbeConfig')(k, input_data_dir=d)
        first = [x for x in ('alias', 'long', 'top') if x in there]
        if not first:
            c.raises('not found', FileNotFoundError, lambda: p.getProbeInitFile('in.h5'))
        else:
            c.ensure('file', p.getProbeInitFile('in.h5') == dirs[first[0]] / 'in.h5')


@contract('P23', [F + 'loadPhysicalParametersFromJSONConfig', P + 'loadAllNuisanceParameters', P + 'present_nuisance_parameters', F + 'nuisance_parameters',
                  F + 'present_cosmological_parameters', PM + '.PhysicalParameter.__init__', PM + '.PhysicalParameter.from_dict', J + 'cosmology', J + 'derivative_settings'], weight=3)
def parameters_of_the_file(c):
    """the cosmological parameters of the file, and for every present probe the nuisance parameters of its bias file (free exactly
    when its bias is marginalised) and its extra ones, with their values; and the displacements of the file"""
    present = c.choice('present', [('WL',), ('GCph',), ('WL', 'GCph'), ('GCsp', 'V'), tuple(LONG)])
    free = c.choice('marginalised', [('GCph',), ('GCsp', 'V'), ()])
    d1 = c.real('d1', positive=True, conc=(0.01, 0.02))
    d2 = d1 + c.real('d2', positive=True, conc=(0.01, 0.02))
    cosmo = [par(c, 'h'), par(c, 'ns', free=False)]
    aIA, bIA = par(c, 'aIA', NUIS, True, 'Lensing'), par(c, 'bIA', NUIS, False, 'Lensing')
    bgph1 = par(c, 'bgph1', NUIS, False, 'PhotometricGalaxy')
    bias = {'bias_GCph.h5': {'bgph0': c.real('bgph0'), 'bgph1': c.real('bgph1')}, 'bias_GCsp.h5': {'bgsp0': c.real('bgsp0')}, 'bias_V.h5': None}
    overridden = c.choice('extra one named as a bias parameter', [False, True])
    extra = {'WL': [aIA, bIA], 'GCph': [bgph1] if overridden else [], 'GCsp': [], 'V': []}
    doc = document(c, present, cosmo=cosmo, disps=[d1, d2], flat=c.choice('flat', [True, False]),
                   probes={k: entry(c, k, k in present, free=k in free, extra=extra[k]) for k in LONG})
    if c.choice('extra parameters named', [True, False]) is False and 'V' in present:
        del doc['probes']['V']['extra_nuisance_parameters']
    f = loaded(c, doc, bias)
    f.loadProbeConfigurationsFromJSONConfig()
    want = {p['name']: p for p in cosmo}
    for k in LONG:
        if k in present and k != 'WL':
            for name, v in (bias[f'bias_{k}.h5'] or {}).items():
                want[name] = dict(name=name, fiducial=v, current_value=v, kind=NUIS, is_free_parameter=k in free, stem_factor=1, probe=LONG[k],
                                  derivative_method=f'method {k}')
        if k in present:
            want.update({p['name']: p for p in extra[k]})

    def check(when):
        f.loadPhysicalParametersFromJSONConfig()
        pp = f.phys_pars
        c.ensure(when + ' names', set(pp) == set(want))
        for n, w in want.items():
            p = pp[n]
            c.ensure(when + ' values', c.and_(c.eq(p.fiducial, w['fiducial']), c.eq(p.current_value, w['current_value']), c.eq(p.stem_factor, w['stem_factor'])))
            c.ensure(when + ' kind', c.and_(p.name == n, p.kind == w['kind'], p.is_free_parameter == w['is_free_parameter'], p.probe == w.get('probe'),
                                            p.derivative_method == w['derivative_method']))
        c.ensure(when + ' displacements', c.and_(c.len(pp.stem_disps) == 4, *[c.eq(c.get(pp.stem_disps, q), v) for q, v in enumerate([-d2, -d1, d1, d2])]))
        c.ensure(when + ' flatness', c.and_(pp.is_universe_flat is doc['cosmology']['flat'], f.is_universe_flat is doc['cosmology']['flat']))
        c.ensure(when + ' nuisance', set(f.nuisance_parameters) == {n for n, w in want.items() if w['kind'] == NUIS})
        c.ensure(when + ' free cosmological', set(f.present_cosmological_parameters) == {'h'})
        for k in present:
            mine = {n for n, w in want.items() if w.get('probe') == LONG[k]}
            c.ensure(when + ' of the probe', set(f[LONG[k]].nuisance_parameters) == mine)
            c.ensure(when + ' free of the probe', set(f[LONG[k]].present_nuisance_parameters) == {n for n in mine if want[n]['is_free_parameter']})
    check('first')
    check('loaded again')


DIFFERENT = ['nothing', 'sky fraction', 'flatness', 'fiducial', 'parameter missing', 'probe missing', 'probe order', 'multipoles', 'density file', 'bias file', 'marginalised', 'settings',
             'bias parameter']


@contract('P23', [F + '__eq__', P + '__eq__', PM + '.PhysicalParameter.__eq__', 'seyfert.base_structs.generic_dict.GenericDictInterface.__eq__'], weight=2)
def equal_configurations(c):
    """two configurations compare equal when they are loaded from the same description, and unequal when the sky fraction, the
    flatness, a parameter, a probe, or the multipoles, files or settings of a probe differ"""
    what = c.choice('different', DIFFERENT)
    x = c.real('change', nonzero=True)
    fsky = c.real('f_sky', positive=True)
    hs = c.real('fiducial')
    b0 = c.real('bgph0')

    def make(k):
        changed = k and what
        extra = {}
        if changed == 'multipoles':
            extra = {'l_max': 17}
        elif changed == 'density file':
            extra = {'density_file': 'other.h5'}
        elif changed == 'bias file':
            extra = {'bias_file': 'bias_V.h5'}
        elif changed == 'marginalised':
            extra = {'marginalize_bias_flag': False}
        elif changed == 'settings':
            extra = {'specific_settings': {'setting': 'other'}}
        h = dict(name='h', fiducial=hs + (x if changed == 'fiducial' else 0), kind=COSMO, is_free_parameter=True)
        n = dict(name='ns', fiducial=1.0, kind=COSMO, is_free_parameter=True)
        present = ['GCph', 'WL']
        doc = document(c, present[:1] if changed == 'probe missing' else present, cosmo=[h] if changed == 'parameter missing' else [h, n],
                       flat=changed != 'flatness', survey={'f_sky': fsky + (x if changed == 'sky fraction' else 0), 'shot_noise_file': None},
                       order=('WL', 'GCph', 'GCsp', 'V') if changed != 'probe order' else ('GCph', 'WL', 'GCsp', 'V'),
                       probes={'GCph': entry(c, 'GCph', True, **extra)})
        v = {'bgph0': b0 + (x if changed == 'bias parameter' else 0)}
        f = loaded(c, doc, {'bias_GCph.h5': v, 'bias_V.h5': v})
        f.loadProbeConfigurationsFromJSONConfig()
        f.loadPhysicalParametersFromJSONConfig()
        return f
    f, g = make(False), make(True)
    if what == 'probe order':
        # the pairs of probes are formed in this order
        c.ensure('different order', c.not_(f == g))
    elif what == 'nothing':
        c.ensure('equal', f == g)
    else:
        c.ensure('unequal', c.and_(c.not_(f == g), c.not_(g == f)))
    c.ensure('equal to itself', c.and_(f == f, g == g))


OPTS = dict(scenario=['optimistic', 'pessimistic'], n_sp_bins=[4, 12, 24, 40], gcph_minus_gcsp=[True, False], shot_noise_sp_reduced=[True, False],
            gcph_only_bins_in_spectro_range=[True, False])
ED = FC + '.ForecastConfigEditor.'


def basic(c):
    """a stand-in for the basic configuration shipped with the package"""
    doc = document(c, tuple(LONG))
    doc['synthetic_opts']['older'] = 'option'
    return doc


def shipped(c):
    """the basic configuration the editor starts from"""
    if c.sym:
        return basic(c)
    import json
    return json.loads((c.target('seyfert.utils.filesystem_utils:config_files_dir')() / 'basic_forecast_config.json').read_text())


def editor(c, opts, doc=None):
    if c.sym:
        c.patch(FC + ':json', ns(load=lambda fp: copy.deepcopy(doc) if doc is not None else basic(c)))
    return c.target(FC + ':ForecastConfigEditor')(opts)


@contract('P23', [ED + f for f in ('__init__', 'checkOpts', 'scenario', 'n_sp_bins', 'gcph_minus_gcsp', 'shot_noise_sp_reduced', 'gcph_only_bins_in_spectro_range', 'updateData', 'updateMultipoles',
                                   'updateGCphDensityAndBias', 'updateGCspDensityAndBias')] + [J + f for f in ('synthetic_opts', 'scenario', 'n_sp_bins', 'WL', 'GCph', 'GCsp', 'Void')], weight=2)
def options_of_the_editor(c):
    """the scenario fixes the multipoles of every probe, the number of spectroscopic bins and the sample options the density and
    bias files; the options are recorded; two incompatible options are refused; whatever was edited before, an editor starts from
    the basic configuration, and editing leaves the configurations of other editors alone"""
    opts = {k: c.choice(k, v) for k, v in OPTS.items()}
    old = shipped(c)
    first = None
    if c.choice('edited before', [False, True]):
        other = dict(scenario={'optimistic': 'pessimistic', 'pessimistic': 'optimistic'}[opts['scenario']], n_sp_bins=24 if opts['n_sp_bins'] == 4 else 4,
                     gcph_minus_gcsp=False, shot_noise_sp_reduced=False, gcph_only_bins_in_spectro_range=not opts['gcph_only_bins_in_spectro_range'])
        first = editor(c, other, old)
        first.updateData()
        first_data = copy.deepcopy(first.config.data)
    e = editor(c, dict(opts), old)
    c.ensure('starts from the basic one', e.config.data == dict(old, synthetic_opts=dict(old['synthetic_opts'], **opts)))
    old['synthetic_opts'] = dict(old['synthetic_opts'], **opts)
    recorded = e.config.synthetic_opts
    c.ensure('recorded', c.and_(*[recorded[k] == v and type(recorded[k]) is type(v) for k, v in opts.items()]))
    c.ensure('shown', c.and_(e.config.scenario == opts['scenario'], e.config.n_sp_bins == opts['n_sp_bins']))
    if opts['gcph_minus_gcsp'] and opts['gcph_only_bins_in_spectro_range']:
        c.raises('incompatible', NotImplementedError, e.updateData)
        return
    e.updateData()
    new = e.config.data
    lmax = {'pessimistic': 750, 'optimistic': 3000}[opts['scenario']]
    ph = 'gcph_dndz_redbook_gcsp_subtracted.h5' if opts['gcph_minus_gcsp'] else \
        'gcph_dndz_redbook_only_bins_in_spectro_range.h5' if opts['gcph_only_bins_in_spectro_range'] else 'gcph_dndz_redbook.h5'
    bias = old['probes']['GCph']['bias_file'] if opts['gcph_minus_gcsp'] else \
        'gcph_bias_piecewise_only_bins_in_spectro_range.h5' if opts['gcph_only_bins_in_spectro_range'] else 'gcph_bias_piecewise.h5'
    n = opts['n_sp_bins']
    ells = dict(l_min=10, l_max=lmax, log_l_number=100, ell_log_selection=True)
    want = copy.deepcopy(old)
    want['probes']['GCph'].update(ells, density_file=ph, bias_file=bias)
    want['probes']['GCsp'].update(ells, density_file=f'gcsp_dndz_{n}_bins.h5', bias_file=f'gcsp_bias_piecewise_{n}_bins.h5')
    want['probes']['WL']['ell_external_filename'] = {'pessimistic': 'wl_pess_ells_10_750_log_nell_100_and_750_1500_lin.txt',
                                                     'optimistic': 'wl_optm_ells_10_3000_log_nell_100_and_3000_5000_lin.txt'}[opts['scenario']]
    c.ensure('configuration', new == want)
    c.ensure('probe entries', c.and_(e.config.WL is new['probes']['WL'], e.config.GCph is new['probes']['GCph'], e.config.GCsp is new['probes']['GCsp'],
                                     e.config.Void is new['probes']['V']))
    e.updateData()
    c.ensure('configuration when updated again', new == want)
    c.ensure('options untouched', e.opts == opts)
    if first is not None:
        c.ensure('other configuration untouched', first.config.data == first_data)


@contract('P23', [ED + 'checkOpts', ED + '__init__', FC + '.OptionValueError.__init__'], weight=1)
def refused_options(c):
    """a missing or unknown option, an unknown value, or a flag that is not a truth value is refused"""
    good = dict(scenario='optimistic', n_sp_bins=12, gcph_minus_gcsp=False, shot_noise_sp_reduced=True, gcph_only_bins_in_spectro_range=False)
    name = c.choice('option', list(good))
    how = c.choice('wrong', ['missing', 'unknown', 'value', 'none'])
    opts = dict(good)
    if how == 'missing':
        del opts[name]
    elif how == 'unknown':
        opts[name + '_'] = opts[name]
    else:
        opts[name] = None if how == 'none' else {'scenario': 'Optimistic', 'n_sp_bins': 5}.get(name, 1)
    c.raises('refused', Exception, lambda: editor(c, opts))
    c.ensure('good ones accepted', editor(c, good).config is not None)


@contract('P23', [ED + 'createFileName', ED + 'bool_opts'], weight=1)
def names_of_edited_files(c):
    """different options give different file names, and the name ends in .json"""
    every = [dict(zip(OPTS, v)) for v in itertools.product(*OPTS.values())]
    a = c.choice('options', every)
    fixed = c.choice('with date', [True, False])

    def name(o):
        e = editor(c, dict(o))
        return e.createFileName(add_datetime=False) if not fixed else e.createFileName()
    mine = name(a)
    c.ensure('extension', mine.endswith('.json'))
    if not fixed:
        c.ensure('distinct', c.and_(*[name(b) != mine for b in every if b != a]))
        c.ensure('repeatable', name(a) == mine)
    else:
        c.ensure('dated', mine.startswith(editor(c, dict(a)).createFileName(add_datetime=False)[:-5] + '_'))


@contract('P23', [J + 'toJSON', J + 'loadJSON', J + 'metadata', J + '__contains__', J + '__getitem__', F + 'writeToJSON', ED + 'writeJSON'], weight=1, trials=10)
def written_configuration(c):
    """a configuration that is written and read back describes the same forecast; only author, date and version are updated"""
    from contracts.p22_storage import Json
    import tempfile
    if c.sym:
        c.patch(JI + ':json', Json())
    doc = document(c, ['WL', 'GCph'], cosmo=[dict(par(c, 'h'), fiducial=0.5, current_value=0.5, stem_factor=1.0)])
    doc['metadata'] = c.choice('metadata', [{}, {'author': 'someone', 'other': 1}])
    want = copy.deepcopy(doc)
    make = c.target(JI + ':JSONForecastConfig')
    with tempfile.TemporaryDirectory() as d:
        file = Path(d) / 'out.json'
        cfg = make(data=doc)
        if c.choice('through', ['document', 'configuration', 'editor']) == 'configuration':
            f = c.target(FC + ':ForecastConfig')()
            f.json_config = cfg
            f.writeToJSON(file)
        else:
            cfg.toJSON(file)
        got = make(file=file)
        c.ensure('same', c.and_(*[got[k] == want[k] for k in want if k != 'metadata']))
        c.ensure('sections', c.and_(set(got.data) == set(want), 'probes' in got, 'nothing' not in got))
        c.ensure('metadata', c.and_(set(got.metadata) == set(want['metadata']) | {'author', 'creation_date', 'version'},
                                    *[got.metadata[k] == v for k, v in want['metadata'].items() if k not in ('author', 'creation_date', 'version')]))
        c.ensure('given document', c.and_(*[doc[k] == want[k] for k in want if k != 'metadata']))


@contract('P23', [J + 'getConfigID', F + 'getConfigID'], weight=1)
def identifier_of_a_configuration(c):
    """the identifier tells apart any two choices of the editor's options"""
    every = [dict(zip(OPTS, v)) for v in itertools.product(*OPTS.values())]
    a = c.choice('options', every)
    make = c.target(JI + ':JSONForecastConfig')
    ident = lambda o: make(data={'synthetic_opts': dict(o)}).getConfigID()
    c.ensure('text', isinstance(ident(a), str))
    c.ensure('distinct', c.and_(*[ident(b) != ident(a) for b in every if b != a]))
    f = c.target(FC + ':ForecastConfig')()
    f.json_config = make(data={'synthetic_opts': dict(a)})
    c.ensure('of the forecast', f.getConfigID() == ident(a))


@contract('P23', [MC + '.PowerSpectrumConfig.' + f for f in ('z_min', 'z_max', 'n_redshifts', 'z_grid', 'boltzmann_code', 'camb_ini_path', 'camb_ini_name')]
          + [MC + '.AngularConfig.' + f for f in ('limber_spline_kx', 'limber_spline_ky', 'limber_spline_s', 'cl_integration_method', 'lensing_efficiency_integration_method')], weight=1)
def settings_of_the_tasks(c):
    """the redshift grid has the configured number of equidistant points from the lowest to the highest redshift; the other settings
    are the configured ones"""
    n = c.int('n', 2, conc=(2, 30))
    a = c.real('z_min')
    b = a + c.real('range', positive=True)
    mk = lambda name: c.target(MC + ':' + name)
    p = mk('PowerSpectrumConfig')(data_dict={'redshift_grid': {'z_min': a, 'z_max': b, 'n_redshifts': n},
                                             'boltzmann_codes_settings': {'code': 'CAMB', 'camb': {'ini_filename': 'x.ini'}, 'class': {}}})
    g = p.z_grid
    c.ensure('number', c.shape_eq(g, (n,)))
    c.forall('redshift', [n], lambda k: c.eq(c.get(g, k), a + c.div((b - a) * k, n - 1)))
    c.ensure('code', c.and_(p.boltzmann_code == 'CAMB', p.camb_ini_path.name == 'x.ini', p.camb_settings == {'ini_filename': 'x.ini'}, p['config_type'] == 'PowerSpectrumConfig'))
    p.z_min, p.z_max, p.n_redshifts, p.boltzmann_code, p.camb_ini_name = a - 1, b + 1, n + 1, 'CLASS', 'y.ini'
    g = p.z_grid
    c.ensure('changed number', c.shape_eq(g, (n + 1,)))
    c.forall('changed redshift', [n + 1], lambda k: c.eq(c.get(g, k), a - 1 + c.div((b - a + 2) * k, n)))
    c.ensure('changed code', c.and_(p.boltzmann_code == 'CLASS', p.camb_ini_path.name == 'y.ini'))
    q = mk('AngularConfig')(data_dict={'cl_integration_settings': {'lensing_efficiency': 'dotrapz', 'cl': 'simpson'}, 'limber_pmm_spline_settings': {'kx': 1, 'ky': 3, 's': 0}})
    c.ensure('splines', (q.limber_spline_kx, q.limber_spline_ky, q.limber_spline_s) == (1, 3, 0))
    c.ensure('methods', (q.cl_integration_method, q.lensing_efficiency_integration_method) == ('simpson', 'dotrapz'))


@contract('P23', [MC + '.config_for_task', MC + '.MainConfig.loadFromJSON', MC + '.MainConfig.writeToJSON', MC + '.MainConfig.fromJSON', MC + '.MainConfig.__init__',
                  'seyfert.base_structs.generic_dict.GenericDictInterface.update'], weight=1, trials=10)
def configuration_of_a_task(c):
    """the configuration of a task is of the task's own kind and has the settings of the file; an unknown task is refused"""
    from contracts.p22_storage import Json
    import tempfile
    if c.sym:
        c.patch(MC + ':json', Json())
    tasks = ['PowerSpectrum', 'Angular', 'Derivative', 'Fisher']
    t = c.choice('task', tasks)
    data = {'redshift_grid': {'z_min': 0.5}, 'angular_dir': 'cls', 'fisher_formula': 'field', 'shot_noise_phsp_xc_factor': 2.0, 'cl_derivatives': {'a': True}}
    with tempfile.TemporaryDirectory() as d:
        file = Path(d) / 'x.json'
        kls = c.target(MC + ':' + t + 'Config')
        first = kls(data_dict=copy.deepcopy(data))
        first.writeToJSON(file)
        for got in (c.target(MC + ':config_for_task')(t, file), kls.fromJSON(file), kls(json_input=file)):
            c.ensure('kind', c.and_(type(got) is kls, got['config_type'] == t + 'Config'))
            c.ensure('settings', {k: got[k] for k in data} == data)
            c.ensure('nothing else', set(got) == set(data) | {'config_type'})
            c.ensure('equal', got == first)
        for bad in ('fisher', 'Main', '', 'Fisher '):
            c.raises('unknown task', ValueError, lambda: c.target(MC + ':config_for_task')(bad, file))


@contract('P23', [MC + '.FisherConfig.getXCDerivativeFlag', MC + '.FisherConfig.cl_derivatives'], weight=1)
def derivative_switches(c):
    """the switch of a pair of probes, whichever way round the pair is written; a pair that is not configured is refused"""
    n = list(LONG.values())
    p, q = c.choice('first', n), c.choice('second', n)
    way = c.choice('written', ['same', 'reversed', 'missing', 'both'])
    flag = c.choice('flag', [True, False])
    other = c.target('seyfert.utils.general_utils:get_probes_combination_key')
    d = {}
    if way in ('same', 'both'):
        d[other(p, q)] = flag
    if way in ('reversed', 'both') and not (way == 'both' and p == q):
        d[other(q, p)] = flag if way == 'reversed' or p == q else not flag
    f = c.target(MC + ':FisherConfig')(data_dict={'cl_derivatives': d})
    if way == 'missing':
        c.raises('not configured', KeyError, lambda: f.getXCDerivativeFlag(other(p, q)))
    else:
        c.ensure('flag', f.getXCDerivativeFlag(other(p, q)) is flag)
