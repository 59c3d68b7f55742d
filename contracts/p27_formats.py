"""Units, names of quantities, tables and files: what is written means what it was made from."""
import json
import math
import tempfile
from pathlib import Path
from types import SimpleNamespace
from pyver.api import contract
from contracts.p25_runs import scratch, attempt

ns = SimpleNamespace
CV, TX, GU, FS = 'seyfert.utils.converters', 'seyfert.utils.tex_utils', 'seyfert.utils.general_utils', 'seyfert.utils.filesystem_utils'
EN, TU, TH, AU = 'seyfert.utils.encoders', 'seyfert.utils.table_utils', 'seyfert.notebook_helpers.table_helpers', 'seyfert.utils.array_utils'
LONG = ['PhotometricGalaxy', 'SpectroscopicGalaxy', 'Lensing', 'Void']
ALIAS = ['GCph', 'GCsp', 'WL', 'V']

PAIRS = [('InchesToPts', 'PtsToInches'), ('InchesToCm', 'CmToInches'), ('SteradToDeg2', 'Deg2ToSterad'), ('SteradToArcmin2', 'Arcmin2ToSterad'),
         ('invDeg2ToInvSterad', 'invSteradToinvDeg2'), ('invArcmin2ToInvSterad', 'invSteradToinvArcmin2')]


@contract('P27', [CV + '.' + f for p in PAIRS for f in p], weight=1)
def units(c):
    """every conversion of units is undone by its inverse; a density per unit of solid angle times a solid angle is the same in all units"""
    x, y = c.real('x'), c.real('y')
    f = lambda n: c.target(CV + ':' + n)
    for a, b in PAIRS:
        c.ensure(f'{a} and back', c.eq(f(b)(f(a)(x)), x))
        c.ensure(f'{b} and back', c.eq(f(a)(f(b)(x)), x))
    c.ensure('inch', c.and_(c.eq(f('InchesToPts')(x), 72 * x), c.eq(f('InchesToCm')(x) * 50, 127 * x)))
    pi = c.np().pi
    c.ensure('square degrees', c.eq(f('SteradToDeg2')(x) * pi * pi, 180 * 180 * x))
    c.ensure('square minutes', c.eq(f('SteradToArcmin2')(x), 3600 * f('SteradToDeg2')(x)))
    c.ensure('counts', c.and_(c.eq(f('invDeg2ToInvSterad')(x) * f('Deg2ToSterad')(y), x * y), c.eq(f('invArcmin2ToInvSterad')(x) * f('Arcmin2ToSterad')(y), x * y)))


@contract('P27', [CV + '.SteradToDeg2', CV + '.invArcmin2ToInvSterad'], weight=1)
def units_of_arrays(c):
    """arrays are converted entry by entry into new arrays"""
    n = c.int('n', 1, conc=(1, 6))
    A = c.array('A', (n,))
    for a in ('SteradToDeg2', 'invArcmin2ToInvSterad', 'InchesToCm'):
        f = c.target(CV + ':' + a)
        B = f(A)
        c.ensure('shape', c.shape_eq(B, (n,)))
        c.forall(a, [n], lambda i: c.eq(c.get(B, i), f(c.get(A, i))))


@contract('P27', [TX + '.TeXTranslator.' + f for f in ('ProbeNameToTeX', 'ProbeTeXToName', 'CosmoParNameToTeX', 'CosmoParTeXToName', 'PhysParNameToTeX', 'PhysParsNamesToTeX', 'CosmologyNameToTeX',
                                                      'CosmologyTeXToName', '__init__')], weight=1)
def names_in_tex(c):
    """TeX names are read back as names of the same quantity, different quantities have different ones and unknown ones are refused"""
    t = c.target(TX + ':TeXTranslator')()
    k = c.choice('tracer', range(4))
    a, l = ALIAS[k], LONG[k]
    x = t.ProbeNameToTeX(a)
    c.ensure('same tracer, same name', t.ProbeNameToTeX(l) == x and t.ProbeNameToTeX(t.ProbeTeXToName(x)) == x)
    c.ensure('different tracers', len({t.ProbeNameToTeX(b) for b in ALIAS + ['XC', 'GCsp(Pk)']}) == 6)
    for b in ALIAS + LONG:
        s = t.ProbeNameToTeX(f'{a} + {b}')
        c.ensure('sums', s == t.ProbeNameToTeX(f'{a}+{b}') == x + '+' + t.ProbeNameToTeX(b) and t.ProbeNameToTeX(t.ProbeTeXToName(s)) == s)
    pars = list(t.phys_par_name_to_tex)
    c.ensure('parameters', {'w0', 'wa', 'Omm', 'OmDE', 'Omb', 'sigma8', 'ns', 'h', 'gamma', 'mnu', 'aIA', 'etaIA', 'betaIA'} <= set(pars))
    c.ensure('parameters and back', all(t.CosmoParTeXToName(t.CosmoParNameToTeX(p)) == p for p in pars))
    bias = [f'bg{s}{i}' for s in ('ph', 'sp') for i in (0, 1, 9, 10, 11, 24, 100)]
    tex = t.PhysParsNamesToTeX(pars + bias)
    c.ensure('all different', len(set(tex)) == len(pars) + len(bias) and tex == [t.PhysParNameToTeX(p) for p in pars + bias])
    c.ensure('bias', all(f'_{{{i}}}' in t.PhysParNameToTeX(f'bg{s}{i}') and s in t.PhysParNameToTeX(f'bg{s}{i}') for s in ('ph', 'sp') for i in (0, 9, 10, 100)))
    c.ensure('dollars', t.PhysParNameToTeX('wa', include_dollar=True) == '$w_a$' and set(t.PhysParsNamesToTeX({'wa', 'h'})) == {'w_a', 'h'})
    for n in t.cosmology_name_to_tex:
        c.ensure('cosmologies', t.CosmologyNameToTeX(t.CosmologyTeXToName(t.CosmologyNameToTeX(n))) == t.CosmologyNameToTeX(n))
    c.ensure('different cosmologies', len({t.CosmologyNameToTeX(n) for n in ('LCDM', 'mnu_LCDM', 'w0_wa_CDM', 'mnu_w0_wa_CDM')}) == 4)
    for f in (t.ProbeNameToTeX, t.ProbeTeXToName, t.CosmologyNameToTeX, t.CosmoParNameToTeX):
        c.raises('unknown', KeyError, lambda: f('nothing'))


@contract('P27', [TX + '.TeXTranslator.' + f for f in ('replaceFisherNamesToTeX', 'replaceCosmoParsNamesToTeX', 'translateToTeX', 'toTeX', 'transformRawTeXTable', 'translateLegendToTeX')], weight=1)
def tables_in_tex(c):
    """in a table every tracer, cross-correlation and parameter becomes its TeX name, signs of changes are marked and numbers are kept"""
    t = c.target(TX + ':TeXTranslator')()
    a, b = c.choice('pair', [(0, 1), (1, 2), (2, 0), (2, 2)])
    p, q = ALIAS[a], ALIAS[b]
    P, Q = t.ProbeNameToTeX(p), t.ProbeNameToTeX(q)
    for f in (t.translateToTeX, t.toTeX):
        c.ensure('sum', f(f'[{p}+{q}] + [GCsp(Pk)]') == rf'[{P}+{Q}] + [{t.ProbeNameToTeX("GCsp")}(P_k)]')
        c.ensure('cross-correlation', f(f'XC({p},{q})') == rf'\mathrm{{XC}}({P},{Q})')
        c.ensure('parameters', f(' Omm & w0 & FoM ') == r' \Omega_m & w_0 & \mathrm{FoM} ')
    al = t.aliases_probes_name_to_tex
    c.ensure('commands', t.translateToTeX(f'XC({p},{q}) + {p}', use_aliases=True) == rf'\xc{{{al[p]}}}{{{al[q]}}} + {al[p]}')
    num = c.choice('number', ['1.25', '12.00', '0.50', '100.00'])
    raw = rf'{p} & Omm & +{num}\% & -{num}\% & +0.00\% & {num} & n\_bins \cline{{2-10}} \cline{{1-3}}'
    out = t.transformRawTeXTable(raw)
    c.ensure('table', out == rf'{al[p]} & \Omm & \positive{{+{num}\%}} & \negative{{-{num}\%}} & \text{{--}} & {num} & \GCsp\, \text{{bins}} \midrule \midrule')
    got = []
    lab = ns(get_text=lambda: f'{p}+{q}', set_text=got.append)
    t.translateLegendToTeX(ns(get_texts=lambda: [lab, lab]))
    c.ensure('legend', got == [f'${P}+{Q}$'] * 2)


@contract('P27', [GU + '.probe_alias_to_fullname', GU + '.probe_fullname_to_alias', GU + '.replace_fullnames_with_aliases', GU + '.get_scenario_string', GU + '.multiple_regex_replace',
                  GU + '.map_nested_dict', GU + '.subset_dict', GU + '.get_probe_comb_from_shortcut'], weight=1)
def names_in_text(c):
    """names of tracers and scenarios in a text are replaced by those of the same tracer or scenario, all at once; maps of tables keep
    their shape"""
    k = c.choice('tracer', range(4))
    l = c.choice('other', range(4))
    f = lambda n: c.target(GU + ':' + n)
    c.ensure('names', f('probe_alias_to_fullname')(ALIAS[k]) == LONG[k] and f('probe_fullname_to_alias')(LONG[k]) == ALIAS[k])
    c.ensure('text', f('replace_fullnames_with_aliases')(f'{LONG[k]}_{LONG[l]} of {LONG[k]}') == f'{ALIAS[k]}_{ALIAS[l]} of {ALIAS[k]}')
    c.ensure('scenario', {s: f('get_scenario_string')(s) for s in ('optm', 'optimistic', 'pess', 'pessimistic')} ==
             {'optm': 'optimistic', 'optimistic': 'optimistic', 'pess': 'pessimistic', 'pessimistic': 'pessimistic'})
    c.raises('no scenario', KeyError, lambda: f('get_scenario_string')('other'))
    c.ensure('all at once', f('multiple_regex_replace')('a.b+c.a', {'a': 'b', 'b': 'a', '.': '+', '+': '.'}) == 'b+a.c+b')
    d = {'a': 1, 'b': {'c': 2, 'd': {'e': 3}}, 'f': {}}
    c.ensure('map', f('map_nested_dict')(d, lambda x: 10 * x) == {'a': 10, 'b': {'c': 20, 'd': {'e': 30}}, 'f': {}} and d['a'] == 1)
    c.ensure('part', f('subset_dict')({'a': 1, 'b': 2, 'c': 3}, c.choice('keys', [['a', 'c', 'x'], ('c', 'a')])) == {'a': 1, 'c': 3})
    short = ['gcph', 'gcsp', 'wl', 'v']
    c.ensure('pair', f('get_probe_comb_from_shortcut')(short[k], short[l]) == f'{LONG[k]}_{LONG[l]}')
    c.raises('no pair', KeyError, lambda: f('get_probe_comb_from_shortcut')(short[k], 'x'))


@contract('P27', [EN + '.NumpyJSONEncoder.default'], mode='bounded', trials=60, bound='arrays of up to two dimensions, nested in dictionaries and lists')
def arrays_in_json(c):
    """arrays are written in JSON as the lists of their values, wherever they are"""
    A = c.array('A', (c.int('n', 0, 4), c.int('m', 1, 3)))
    E = c.target(EN + ':NumpyJSONEncoder')
    d = json.loads(json.dumps({'a': A, 'b': [A[:, 0], 1], 'c': {'d': A}, 'e': 'x'}, cls=E))
    c.ensure('read back', d == {'a': A.tolist(), 'b': [A[:, 0].tolist(), 1], 'c': {'d': A.tolist()}, 'e': 'x'})
    c.raises('others refused', TypeError, lambda: json.dumps({'a': object()}, cls=E))


@contract('P27', [EN + '.PhysParJSONEncoder.default'], weight=1)
def objects_in_json(c):
    """objects are written with all their attributes"""
    x = c.choice('value', [1, 2.5, 'text', None, [1, 2]])
    class O:
        pass
    o = O()
    o.a, o.b = x, True
    c.ensure('written', c.target(EN + ':PhysParJSONEncoder')().default(o) == {'a': x, 'b': True})


@contract('P27', [TU + '.write_dataframe_table'], mode='bounded', trials=40, bound='tables of up to 5 x 4 entries as csv')
def tables_on_disk(c):
    """a table is written once with the values and names it has; an existing one is replaced only when asked to"""
    import pandas as pd
    A = c.array('A', (c.int('rows', 1, 5), c.int('columns', 1, 4)))
    df = pd.DataFrame(A, index=[f'r{i}' for i in range(A.shape[0])], columns=[f'c{i}' for i in range(A.shape[1])])
    w = c.target(TU + ':write_dataframe_table')
    over, there = c.choice('overwrite', [True, False]), c.choice('there', [True, False])
    with scratch() as d:
        f = d / 't.csv'
        if there:
            f.write_text('kept')
        w(df, c.choice('given', [f, str(f)]), overwrite=over)
        if there and not over:
            c.ensure('kept', f.read_text() == 'kept')
        else:
            c.ensure('values', pd.read_csv(f, index_col=0, float_precision='round_trip').equals(df))
        c.raises('other formats refused', Exception, lambda: w(df, d / 't.doc'))


@contract('P27', [FS + '.get_fisher_dirname_from_switches', FS + '.get_fisher_jobdir_name_from_dvar1_dvar2', FS + '.get_dvar1_dvar2_from_fisher_jobdir_name'], weight=1)
def names_of_directories(c):
    """names of directories tell which derivatives were switched and which parameters they belong to"""
    import itertools
    f = c.target(FS + ':get_fisher_dirname_from_switches')
    sw = list(itertools.product([True, False], repeat=3))
    names = [f(wlph=a, wlsp=b, phsp=p) for a, b, p in sw]
    c.ensure('all different', len(set(names)) == 8)
    a, b, p = c.choice('switches', sw)
    c.ensure('written', f(prefix='x', wlph=a, wlsp=b, phsp=p) == f'x__der_WL-GCph_{a}__der_WL-GCsp_{b}__der_GCph-GCsp_{p}')
    x, y = c.choice('parameters', [('Omm', 'bgph10'), ('h', 'h'), ('w0', 'Psn')])
    c.ensure('parameters', c.target(FS + ':get_dvar1_dvar2_from_fisher_jobdir_name')(c.target(FS + ':get_fisher_jobdir_name_from_dvar1_dvar2')(x, y)) == (x, y))
    c.raises('others', Exception, lambda: c.target(FS + ':get_dvar1_dvar2_from_fisher_jobdir_name')('Omm'))


@contract('P27', [FS + '.default_seyfert_input_data_dir', FS + '.get_ist_gcsp_pk_fisher_file', FS + '.default_data_dir', FS + '.config_files_dir', FS + '.repo_path'], weight=1)
def files_of_the_code(c):
    """the input data are those of the environment, else those of the home directory, and must exist; files of the code are found in it"""
    import os
    how = c.choice('environment', ['set', 'set, absent', 'unset', 'unset, absent'])
    with scratch() as d:
        home = d / 'home'
        data = d / 'data'
        home.mkdir()
        if how == 'set':
            data.mkdir()
        if how != 'unset, absent':
            (home / 'spectrophoto' / 'input_data').mkdir(parents=True)
        old = {k: os.environ.get(k) for k in ('SEYFERT_INPUT_DATA', 'HOME')}
        try:
            os.environ['HOME'] = str(home)
            if how.startswith('set'):
                os.environ['SEYFERT_INPUT_DATA'] = str(data)
            else:
                os.environ.pop('SEYFERT_INPUT_DATA', None)
            f = c.target(FS + ':default_seyfert_input_data_dir')
            if 'absent' in how:
                c.raises('refused', NotADirectoryError, f)
            else:
                c.ensure('directory', f() == (data if how == 'set' else home / 'spectrophoto' / 'input_data'))
        finally:
            for k, v in old.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
    g = c.target(FS + ':get_ist_gcsp_pk_fisher_file')
    s = c.choice('scenario', ['optimistic', 'pessimistic'])
    c.ensure('matrix of the scenario', g(s).is_file() and s in g(s).name and 'GCsp' in g(s).name)
    c.raises('no such scenario', FileNotFoundError, lambda: g('other'))


@contract('P27', [AU + '.compute_arrays_union1d'], mode='bounded', trials=60, bound='up to three arrays of five values')
def union_of_multipoles(c):
    """the union of arrays holds each value of any of them once, and no other"""
    As = [c.array(f'A{k}', (c.int(f'n{k}', 1, conc=(1, 5)),), integer=True, conc=(0, 6)) for k in range(c.int('arrays', 2, 3))]
    c.ensure('values', sorted(set().union(*[A.tolist() for A in As])) == c.target(AU + ':compute_arrays_union1d')(As).tolist())
