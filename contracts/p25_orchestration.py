"""Programs a user starts: several runs at once, the options they take, the directories they look for, what they leave."""
import argparse
import contextlib
import datetime
import itertools
import json
import os
import shlex
from pathlib import Path
from types import SimpleNamespace
from pyver.api import contract
from contracts.p25_runs import scratch, attempt, TASKS, RM, TR, WS, SC, OR, CL, FM, DX, GU

ns = SimpleNamespace
JS, OS, EF = 'bin__job_submitter', 'bin__orchestrate_run', 'bin__evaluate_final_results'
CONFIGS = {'PowerSpectrum': 'pmm_cfg', 'Angular': 'cl_cfg', 'Derivative': 'der_cfg', 'Fisher': 'fish_cfg'}


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)


def write(p, text=''):
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_text(text)
    return p


def options(c, cmd):
    """what job_submitter understands of a command line"""
    w = shlex.split(cmd)
    c.ensure('program', w[0] == 'job_submitter')
    return vars(c.target(JS + ':specific_program_options')().parse_args(w[1:]))


def cli(**kw):
    a = dict(angular=False, derivative=False, fisher=False, powerspectrum=False, execution='interactive', queue='long', memory=2048, n_cores_per_job=1, ini_file=None, additional_flags=[],
             input_data_dir=None, powerspectra=None, create_config=False, forecast_configs=None, rundirs=None)
    a.update(kw)
    return argparse.Namespace(**a)


def command(c, stderr=b''):
    ran = []

    def run(cmd, *a, **kw):
        # a command line goes through the shell, a list of arguments does not
        c.ensure('can be run', isinstance(cmd, str) == bool(kw.get('shell', False)))
        ran.append(cmd)
        return ns(stderr=stderr, stdout=b'', returncode=0)
    c.stub(OR + ':subprocess.run', run)
    return ran


def common(c, a, got):
    c.ensure('batch options', got['execution'] == a.execution and got['queue'] == a.queue and got['memory'] == a.memory and got['n_cores_per_job'] == a.n_cores_per_job)
    c.ensure('tasks', all(bool(got[t]) == bool(getattr(a, t)) for t in ('angular', 'derivative', 'fisher')) and not got['powerspectrum'])
    c.ensure('flags', all(bool(got[f]) == (f in a.additional_flags) for f in ('keep_cl_variations', 'overwrite_results', 'test', 'verbose')))
    c.ensure('ini', got['ini_file'] == a.ini_file)


@contract('P25', [OR + '.do_new_seyfert_run', OR + '.build_seyfert_cmd', OR + '.get_input_data_dir', OR + '.update_key_val_args_from_cli_args', CL + '.forecast_task_flags',
                  CL + '.forecast_task_configs_options', CL + '.forecast_dirs_paths_options', CL + '.main_submitter_batch_options', CL + '.batch_options', GU + '.split_run_id'],
          mode='bounded', trials=150, bound='every subset of tasks, of two flags, of configuration files and directories given')
def one_of_several_runs(c):
    """a new run is started with the tasks, options and flags asked for and its own files, under a name that tells its configuration, and
    not started at all when execution is no"""
    given = {t: c.choice(t, [True, False]) for t in ('angular', 'derivative', 'fisher')}
    flags = [f for f in ('keep_cl_variations', 'overwrite_results') if c.choice(f, [True, False])]
    ex = c.choice('execution', ['interactive', 'batch', 'no'])
    ini = c.choice('ini', [None, Path('/a/run.ini')])
    data = c.choice('data', [None, '/a/data'])
    a = cli(execution=ex, queue=c.choice('queue', ['long', 'medium']), memory=c.choice('memory', [1, 4096]), n_cores_per_job=c.choice('cores', [1, 8]), ini_file=ini, additional_flags=flags,
            input_data_dir=data, **given)
    fish_id, cl_id = c.choice('fisher id', [True, False]), c.choice('angular id', [True, False])
    V = c.target(OR + ':VERSION')
    pmm = c.choice('power spectra', [None, f'/p/planck_{V}_2026-01-02T03-04-05/PowerSpectrum', '/p/planck', '/q/planck/PowerSpectrum'])
    dirs = {k: c.choice(k, [None, f'/a/{k}']) for k in ('cl_dir', 'der_dir')}
    stem = c.choice('forecast', ['optimistic_10_sp_bins', 'mine'])
    kv = {'fcfg': Path(f'/c/{stem}{c.choice("dated", ["", "_" + V + "_2026-01-02T03-04-05"])}.json'), 'cl_cfg': Path('/c/lin.json'), 'fish_cfg': Path('/c/all_xc.json'),
          'pmm_cfg': Path('/c/p.json'), 'der_cfg': Path('/c/d.json'), 'res_cfg': Path('/c/r.json')}
    if pmm is not None:
        kv['pmm_dir'] = Path(pmm)
    kv.update({k: v for k, v in dirs.items() if v is not None})
    full = dict(kv)
    ran = command(c, c.choice('standard error', [b'', b'oops']))
    c.stub(OR + ':fsu.default_seyfert_input_data_dir', lambda: Path('/the/default'))
    c.target(OR + ':update_key_val_args_from_cli_args')(a, kv)
    rid = c.target(OR + ':do_new_seyfert_run')(args=a, keyval_args=kv, use_fisher_as_id=fish_id, use_angular_as_id=cl_id)
    want = stem + ('_all_xc' if fish_id else '') + ('_lin' if cl_id else '') + ('_planck' if pmm is not None else '')
    c.ensure('name', rid == want)
    c.ensure('started', len(ran) == (0 if ex == 'no' else 1))
    if ran:
        got = options(c, ran[0])
        common(c, a, got)
        c.ensure('name passed on', got['run_id'] == want)
        c.ensure('data', str(got['input_data_dir']) == (data or '/the/default'))
        c.ensure('forecast', str(got['forecast_config']) == str(full['fcfg']))
        for o, k in (('powerspectrum_config', 'pmm_cfg'), ('angular_config', 'cl_cfg'), ('derivative_config', 'der_cfg'), ('fisher_config', 'fish_cfg'), ('results_config', 'res_cfg')):
            c.ensure('configurations', got[o] == full[k])
        for o, k in (('powerspectrum_dir', 'pmm_dir'), ('angular_dir', 'cl_dir'), ('derivative_dir', 'der_dir')):
            c.ensure('directories', (got[o] is None and k not in full) or (k in full and str(got[o]) == str(full[k])))
        c.ensure('no other directory', got['fisher_dir'] is None and got['rundir'] is None)


@contract('P25', [OR + '.do_multiple_new_seyfert_runs', OR + '.sort_forecast_config_files'], weight=1)
def every_combination(c):
    """one run per combination of forecast, Fisher and angular configurations and power spectra, each started once, with its own files and
    the common ones, in the order of the number of bins; configurations that would share a name are told apart"""
    names = c.choice('forecasts', [['b_4_sp_bins.json', 'a_12_sp_bins.json', 'c_8_sp_bins.json'], ['second.json', 'first.json'], ['only.json'], []])
    fish = [Path(f'/f/{k}.json') for k in range(c.choice('fishers', [1, 2, 0]))]
    cls = [Path(f'/c/{k}.json') for k in range(c.choice('angular', [1, 2]))]
    pmms = [[None], [Path('/p/1')], [Path('/p/1'), Path('/p/2')]][c.choice('power spectra', [0, 1, 2])]
    ext = c.choice('directories', [{'pmm_dir': None, 'cl_dir': None, 'der_dir': None}, {'pmm_dir': None, 'cl_dir': '/e/cl', 'der_dir': None}])
    configs = {'fcfg': [Path('/x') / f for f in names], 'fish_cfg': list(fish), 'cl_cfg': list(cls), 'pmm_cfg': 'P', 'der_cfg': 'D', 'res_cfg': 'R', 'ext_dirs': ext}
    a = cli(angular=True, queue='medium', memory=7, n_cores_per_job=3, ini_file=c.choice('ini', [None, 'my.ini']))
    runs = []

    def new(args=None, keyval_args=None, use_fisher_as_id=True, use_angular_as_id=True):
        c.ensure('options', args is a)
        c.ensure('told apart', (use_fisher_as_id or len(fish) < 2) and (use_angular_as_id or len(cls) < 2))
        runs.append(dict(keyval_args))
        return f'id{len(runs)}'
    c.stub(OR + ':do_new_seyfert_run', new)
    c.stub(OR + ':fm.string_time_format', lambda s: '')
    go = lambda: c.target(OR + ':do_multiple_new_seyfert_runs')(pmm_dirs=list(pmms), configs=configs, args=a)
    if not names or not fish:
        c.ensure('nothing to run is refused', attempt(go, Exception) is not None and runs == [])
        return
    ids = go()
    c.ensure('one name per run', ids == [f'id{k + 1}' for k in range(len(runs))])
    order = ['b_4_sp_bins.json', 'c_8_sp_bins.json', 'a_12_sp_bins.json'] if len(names) == 3 else names
    want = [(Path('/x') / f, g, l, p) for f in order for g in fish for l in cls for p in pmms]
    got = [(r['fcfg'], r['fish_cfg'], r['cl_cfg'], r.get('pmm_dir')) for r in runs]
    c.ensure('each once', len(got) == len(want) and set(got) == set(want))
    c.ensure('in the order of the forecasts', [g[0] for g in got] == [w[0] for w in want])
    for r in runs:
        c.ensure('common files', (r['pmm_cfg'], r['der_cfg'], r['res_cfg']) == ('P', 'D', 'R'))
        c.ensure('common directories', r.get('cl_dir') == ext['cl_dir'] and 'der_dir' not in r and ('pmm_dir' in r) == (pmms != [None]))
        c.ensure('options passed on', (r['ex'], r['q'], r['ncj'], r['mem'], r.get('ini')) == ('interactive', 'medium', 3, 7, a.ini_file))


@contract('P25', [OR + '.run_seyfert_on_existing_rundir', OR + '.do_multiple_seyfert_runs_on_existing_rundirs'], weight=1)
def existing_runs(c):
    """a run that exists is continued in its own directory with its own copies of the configuration, once each"""
    n = c.choice('runs', [1, 2])
    task = c.choice('task', ['angular', 'derivative', 'fisher'])
    data = c.choice('data', [None, '/a/data'])
    a = cli(queue='medium', memory=7, n_cores_per_job=3, ini_file=c.choice('ini', [None, Path('/a/b.ini')]), additional_flags=c.choice('flags', [[], ['overwrite_results']]), input_data_dir=data, **{task: True})
    c.stub(OR + ':fsu.default_seyfert_input_data_dir', lambda: Path('/the/default'))
    ran = command(c)
    with scratch() as d:
        W = c.target(WS + ':WorkSpace')
        for t in ['forecast'] + TASKS:
            write(d / 'src' / f'my_{t}.json', json.dumps({'task': t}))
        (d / 'data').mkdir()
        dirs = [d / f'run{k}' for k in range(n)]
        for p in dirs:
            p.mkdir()
            W(p).createInputFilesDir({t: d / 'src' / f'my_{t}.json' for t in ['forecast'] + TASKS}, ns(writeJSON=lambda q: Path(q).write_text('{}')), d / 'data')
        c.target(OR + ':do_multiple_seyfert_runs_on_existing_rundirs')(a, [str(p) for p in dirs])
        c.ensure('each once', len(ran) == n)
        for p, cmd in zip(dirs, ran):
            got = options(c, cmd)
            common(c, a, got)
            c.ensure('its directory', Path(got['rundir']) == p and str(got['input_data_dir']) == (data or '/the/default'))
            for t in ['forecast'] + TASKS:
                f = Path(got[t.lower() + '_config'])
                c.ensure('its files', p in f.parents and json.loads(f.read_text()) == {'task': t})


@contract('P25', [OR + '.create_config_dir_tree', OR + '.get_configs'], weight=1)
def tree_of_configurations(c):
    """the directory of configurations created for several runs holds copies of the files given and is read back as such; forecast, Fisher
    and angular configurations may be several"""
    more = c.choice('more', [0, 2])
    with scratch() as d:
        src = {t: write(d / 'src' / f'{t}.json', t) for t in TASKS + ['results']}
        work = d / 'work'
        (work / 'config').mkdir(parents=True) if c.choice('there', [True, False]) else work.mkdir()
        c.target(OR + ':create_config_dir_tree')(workdir=work, args=ns(**{f'{t.lower()}_config': f for t, f in src.items()}))
        cfg = work / 'config'
        empty = c.target(OR + ':get_configs')(cfg)
        c.ensure('no forecast yet', list(empty['fcfg']) == [])
        for k in range(more):
            for s in ('fcfg', 'fish_cfg', 'cl_cfg'):
                write(cfg / s / f'new{k}.json', f'{s}{k}')
        ext = {'pmm_dir': None, 'cl_dir': c.choice('directory', [None, '/a/b']), 'der_dir': None}
        if ext['cl_dir']:
            (cfg / 'external_dirs.json').write_text(json.dumps(ext))
        got = c.target(OR + ':get_configs')(cfg)
        c.ensure('directories', got['ext_dirs'] == ext)
        c.ensure('forecasts', sorted(p.read_text() for p in got['fcfg']) == [f'fcfg{k}' for k in range(more)])
        for t, s in CONFIGS.items():
            if t in ('Fisher', 'Angular'):
                c.ensure('several', sorted(p.read_text() for p in got[s]) == sorted([t] + [f'{s}{k}' for k in range(more)]))
            else:
                c.ensure('one', Path(got[s]).read_text() == t and cfg in Path(got[s]).parents)
        c.ensure('results', Path(got['res_cfg']).read_text() == 'results')
        c.ensure('sources kept', all(f.read_text() == t for t, f in src.items()))


@contract('P25', [OR + '.get_pmm_dirs'], weight=1)
def power_spectra_of_runs(c):
    """spectra are computed only from power spectra that exist, given as one directory or as a list in a text file; otherwise none is used"""
    angular = c.choice('angular', [True, False])
    how = c.choice('given', ['none', 'directory', 'list', 'absent', 'absent in list', 'other file'])
    with scratch() as d:
        ps = [d / f'p{k}' for k in range(3)]
        for p in ps:
            p.mkdir()
        f = {'none': None, 'directory': ps[1], 'absent': d / 'nothing', 'other file': d / 'list.json', 'list': d / 'list.txt', 'absent in list': d / 'list.txt'}[how]
        if how == 'list':
            f.write_text('\n'.join(map(str, [ps[2], ps[0]])) + '\n')
        elif how == 'absent in list':
            f.write_text('\n'.join(map(str, [ps[2], d / 'nothing'])))
        elif how == 'other file':
            f.write_text('[]')
        go = lambda: c.target(OR + ':get_pmm_dirs')(cli(angular=angular, powerspectra=f))
        if angular and how not in ('directory', 'list'):
            c.ensure('refused', attempt(go, Exception) is not None)
        else:
            c.ensure('directories', go() == ([None] if not angular else [ps[1]] if how == 'directory' else [ps[2], ps[0]]))


@contract('P25', [OR + '.collect_rundirs'], weight=1)
def directories_of_runs(c):
    """the directories of the runs are those with their names, and no others"""
    V = c.target(OR + ':VERSION')
    ids = c.choice('runs', [['a'], ['a', 'a_b'], ['a_b'], [], ['c']])
    with scratch() as d:
        where = {i: [d / f'{i}_{V}_2026-01-02T03-04-0{k}' for k in range(2)] for i in ('a', 'a_b', 'ab')}
        for p in sum(where.values(), []) + [d / 'a', d / 'config', d / 'a_config']:
            p.mkdir()
        write(d / f'a_{V}.log')
        got = c.target(OR + ':collect_rundirs')(d, ids)
        c.ensure('directories', sorted(got) == sorted(p for i in ids for p in where.get(i, [])))


@contract('P25', ['bin/orchestrate_run.main', 'bin/orchestrate_run.program_options', CL + '.get_paths_from_files_list'], mode='bounded', trials=120,
          bound='every combination of options and the forms of lists of files')
def several_runs(c):
    """the orchestrator starts new runs or continues the given ones with exactly the options given, lists the directories of those it
    started, refuses to do nothing, and only prepares the configuration when asked to"""
    tasks = [t for t in ('angular', 'derivative', 'fisher') if c.choice(t, [True, False])]
    ex = c.choice('execution', ['interactive', 'batch', 'no', None])
    how = c.choice('what', ['new', 'listed', 'files', 'existing', 'existing listed', 'prepare'])
    with scratch() as d, inside(d):
        acts = []
        files = [d / 'x1.json', d / 'x2.json']
        lst = write(d / 'list.txt', f'{files[1]}\n{files[0]}  \n')
        argv = [f'--{t}' for t in tasks] + (['-ex', ex] if ex else []) + {'new': [], 'listed': ['-fcfgs', 'list.txt'], 'files': ['-fcfgs', *map(str, files)], 'existing': ['-rds', *map(str, files)],
                                                                        'existing listed': ['-rds', 'list.txt'], 'prepare': ['-ccfg']}[how]
        args = c.target(OS + ':program_options')().parse_args(argv)
        for t in ('angular', 'derivative', 'fisher'):
            c.ensure('tasks', bool(getattr(args, t)) == (t in tasks))
        c.stub(OS + ':gu.configure_logger', lambda *a, **k: None)
        c.stub(OR + ':create_config_dir_tree', lambda workdir=None, args=None: acts.append(('tree', Path(workdir))))
        c.stub(OR + ':get_configs', lambda cfg_dir: (c.ensure('configurations', Path(cfg_dir) == d / 'config'), {'fcfg': ['own'], 'mark': 5})[1])
        c.stub(OR + ':get_pmm_dirs', lambda args: ['p1', 'p2'])
        c.stub(OR + ':do_multiple_seyfert_runs_on_existing_rundirs', lambda args=None, input_rundirs=None: acts.append(('existing', list(input_rundirs))))

        def new(pmm_dirs=None, configs=None, args=None):
            c.ensure('power spectra', pmm_dirs == ['p1', 'p2'] and configs['mark'] == 5)
            acts.append(('new', list(configs['fcfg'])))
            return ['i1', 'i2']
        c.stub(OR + ':do_multiple_new_seyfert_runs', new)
        c.stub(OR + ':collect_rundirs', lambda workdir, run_ids: (c.ensure('names', list(run_ids) == ['i1', 'i2'] and Path(workdir) == d), [d / 'r1', d / 'r2'])[1])
        go = lambda: c.target(OS + ':main')(args)
        if how == 'prepare':
            go()
            c.ensure('only prepared', acts == [('tree', d)])
            return
        if not tasks or ex is None:
            c.ensure('refused', attempt(go, Exception) is not None and acts == [])
            return
        go()
        want = {'new': ('new', ['own']), 'listed': ('new', files[::-1]), 'files': ('new', files), 'existing': ('existing', files), 'existing listed': ('existing', files[::-1])}[how]
        c.ensure('runs', acts == [want])
        lists = [json.loads(f.read_text()) for f in d.glob('rundirs_*.json')]
        c.ensure('list of directories', lists == ([[str(d / 'r1'), str(d / 'r2')]] if want[0] == 'new' and ex != 'no' else []))


@contract('P25', [CL + '.get_paths_from_files_list', CL + '.read_json_txt_list_file'], weight=1)
def lists_of_files(c):
    """lists of files are read as given, one per line of the text files or one per entry"""
    n = c.choice('files', [1, 2])
    how = c.choice('form', ['txt', 'paths', 'mixed'])
    with scratch() as d:
        t = [write(d / f'l{k}.txt', f'/a/{k}\n /b/{k} \n') for k in range(n)]
        x = {'txt': list(map(str, t)), 'paths': ['/a/b.json', Path('/a/c')][:n], 'mixed': [t[0], '/a/b.json']}[how]
        got = c.target(CL + ':get_paths_from_files_list')(x)
        c.ensure('paths', got == ([Path(f'/{y}/{k}') for k in range(n) for y in 'ab'] if how == 'txt' else [Path(p) for p in x]))
        read = c.target(CL + ':read_json_txt_list_file')
        c.ensure('text', read(str(t[0])) == ['/a/0', '/b/0'])
        c.ensure('json', read(write(d / 'l.json', '["p", "q"]')) == ['p', 'q'])
        c.ensure('other', attempt(lambda: read(write(d / 'l.xml')), Exception) is not None)


@contract('P25', ['bin/job_submitter.main', 'bin/job_submitter.check_options'], weight=1)
def program_of_a_run(c):
    """a run is refused with an unknown execution mode or no cores; its spectra of the displaced cosmologies are removed only when this
    run computed them and they are not to be kept; its log ends in its directory"""
    ex = c.choice('execution', ['interactive', 'batch', 'no', 'maybe'])
    cores = c.choice('cores', [0, -1, 1, 4])
    present = {t: c.choice(t, [True, False]) for t in TASKS[1:]}
    keep = c.choice('keep', [True, False])
    old = c.choice('run', [None, 'given'])
    with scratch() as d, inside(d):
        run = d / 'run'
        var = {k: run / 'Angular' / k for k in ('dvar_h_step_p_1', 'dvar_h_step_m_1')}
        for p in list(var.values()) + [run / 'Angular' / 'dvar_central_step_0', run / 'Derivative']:
            p.mkdir(parents=True)
            write(p / 'cl.h5')
        made = []

        def forecast(cmd_line_args=None, rundir=None, **kw):
            made.append((cmd_line_args, rundir))
            t = {k: ns(is_present=v) for k, v in present.items()}
            t['PowerSpectrum'] = ns(is_present=False)
            return ns(doForecast=lambda: made.append('done'), rundir=run, tasks=t, cl_task=t['Angular'], workspace=ns(collectClVariationDirectories=lambda: var))
        c.stub(JS + ':task_runners.ForecastRunner', forecast)
        c.stub(JS + ':RunReportMaker', lambda rundir: ns(buildTaskReportMakers=lambda: None, writeReportFiles=lambda: None, run_summary=''))
        c.stub(JS + ':gu.configure_logger', lambda logger, logfile: write(d / logfile, 'log'))
        c.stub(JS + ':string_time_format', lambda s: '')
        for f in ('login', 'logout'):
            c.stub(GU + f':print_script_{f}', lambda *a, **k: None)
        a = dict(execution=ex, n_cores_per_job=cores, test=False, keep_cl_variations=keep, rundir=None if old is None else d / old)
        go = lambda: c.target(JS + ':main')(a)
        if ex == 'maybe' or cores <= 0:
            c.ensure('refused', attempt(go, ValueError) is not None and made == [])
            return
        go()
        c.ensure('one forecast', len(made) == 2 and made[0] == (a, None if old is None else d / old) and made[1] == 'done')
        gone = present['Angular'] and not keep
        c.ensure('displaced spectra', all(p.exists() != gone for p in var.values()))
        c.ensure('results kept', (run / 'Angular' / 'dvar_central_step_0' / 'cl.h5').exists() and (run / 'Derivative' / 'cl.h5').exists())
        logs = list(run.glob('logfile*'))
        c.ensure('log', len(logs) == 1 and logs[0].read_text() == 'log' and list(d.glob('logfile*')) == [])


@contract('P25', ['bin/job_submitter.specific_program_options', 'bin/job_submitter.program_inputs', 'bin/job_submitter.program_options', GU + '.convert_keyval_params_type',
                  FM + '.str_to_bool', CL + '.JobSubmitterCommandLineArgs.castArgTypes'], mode='bounded', trials=40, bound='options given on the command line, in the ini file, or both')
def options_of_a_run(c):
    """options mean the same on the command line and in an ini file, whose values win; unknown ones are refused"""
    import runpy
    import sys
    import seyfert
    opts = {'angular': c.choice('angular', [None, True, False]), 'fisher': c.choice('fisher', [None, True, False]), 'keep_cl_variations': c.choice('keep', [None, True, False]),
            'n_cores_per_job': c.choice('cores', [None, 1, 6]), 'memory': c.choice('memory', [None, 100]), 'queue': c.choice('queue', [None, 'medium']), 'run_id': c.choice('id', [None, 'mine']),
            'angular_dir': c.choice('directory', [None, '/a/cls']), 'forecast_config': '/a/f.json'}
    where = {k: c.choice('where ' + k, ['line', 'ini', 'both']) for k in opts}
    wrong = c.choice('unknown', [False, True, False])
    base = {'angular': False, 'fisher': False, 'keep_cl_variations': False, 'n_cores_per_job': 1, 'memory': 2048, 'queue': 'long', 'run_id': None, 'angular_dir': None, 'forecast_config': None}
    other = {'angular': True, 'fisher': True, 'keep_cl_variations': True, 'n_cores_per_job': 3, 'memory': 5, 'queue': 'q', 'run_id': 'z', 'angular_dir': '/z', 'forecast_config': '/z.json'}
    argv, ini, want = ['-ex', 'interactive'], ['[config]'], dict(base)
    for k, v in opts.items():
        if v is None:
            continue
        want[k] = v
        if where[k] != 'ini':
            u = v if where[k] == 'line' else other[k]
            argv += [f'--{k}'] if u is True and c.choice('bare ' + k, [True, False]) else [f'--{k}', str(u)]
        if where[k] != 'line':
            ini.append(f'{k} = {v}')
    if wrong:
        ini.append('cores = 3')
    with scratch() as d, inside(d):
        write(d / 'run.ini', '\n'.join(ini))
        made = []

        def forecast(cmd_line_args=None, rundir=None, **kw):
            made.append(c.target(CL + ':JobSubmitterCommandLineArgs')(cmd_line_args))
            (d / 'run').mkdir()
            return ns(doForecast=lambda: None, rundir=d / 'run', tasks={}, cl_task=ns(is_present=False), workspace=None)
        c.stub(TR + ':ForecastRunner', forecast)
        c.stub(GU + ':configure_logger', lambda logger, logfile: write(d / logfile, 'log'))
        c.stub('seyfert.utils.filesystem_utils:default_seyfert_input_data_dir', lambda: d)
        script = Path(seyfert.__file__).resolve().parent.parent / 'bin' / 'job_submitter'
        old = sys.argv
        sys.argv = ['job_submitter'] + argv + (['-ini', 'run.ini'] if wrong or len(ini) > 1 else [])
        try:
            if wrong:
                c.raises('refused', KeyError, lambda: runpy.run_path(str(script), run_name='__main__'))
                return
            runpy.run_path(str(script), run_name='__main__')
        finally:
            sys.argv = old
        c.ensure('one run', len(made) == 1)
        got = made[0]
        for k, v in want.items():
            c.ensure('option ' + k, (bool(got[k]) == v) if isinstance(v, bool) else str(got[k]) == str(v))
            c.ensure('type ' + k, not isinstance(v, (bool, int)) or isinstance(got[k], (bool, int)))
        c.ensure('path', opts['angular_dir'] is None or isinstance(got['angular_dir'], Path))


@contract('P25', ['bin/run_seyfert.main', 'bin/run_seyfert.program_options'], weight=1)
def program_of_forecasts(c):
    """forecasts are run or submitted in the order of their numbers of bins when all have one, else by name; no execution runs nothing and
    an unknown one is refused"""
    B = 'bin__run_seyfert'
    ex = c.choice('execution', ['interactive', 'batch', 'no', 'maybe'])
    names = c.choice('files', [['b_4_sp_bins.json', 'a_12_sp_bins.json', 'c_8_sp_bins.json'], ['z.json', 'a_12_sp_bins.json'], ['one.json']])
    order = {3: ['b_4_sp_bins.json', 'c_8_sp_bins.json', 'a_12_sp_bins.json'], 2: ['a_12_sp_bins.json', 'z.json'], 1: ['one.json']}[len(names)]
    with scratch() as d, inside(d):
        acts = []
        c.stub(B + ':gu.configure_logger', lambda *a, **k: None)
        c.stub(B + ':formatters.string_time_format', lambda s: '')
        c.stub('seyfert.utils.filesystem_utils:default_seyfert_input_data_dir', lambda: d)
        for f in ('login', 'logout'):
            c.stub(GU + f':print_script_{f}', lambda *a, **k: None)
        c.stub(SC + ':execute_interactively', lambda args_dict=None, forecast_configs=None, logfile=None: acts.append(('interactive', args_dict, list(forecast_configs))))
        c.stub(SC + ':submit_batch_jobs', lambda args_dict=None, forecast_configs=None: acts.append(('batch', args_dict, list(forecast_configs))))
        a = vars(c.target(B + ':program_options')().parse_args(['-ex', ex, '-fcfg', *[f'/x/{f}' for f in names], '-wd', str(d), '-mem', '77']))
        go = lambda: c.target(B + ':main')(a)
        if ex == 'maybe':
            c.ensure('refused', attempt(go, ValueError) is not None and acts == [])
            return
        go()
        c.ensure('all in order', acts == ([] if ex == 'no' else [(ex, a, [Path('/x') / f for f in order])]))
        c.ensure('options', a['memory'] == 77 and a['workdir'] == d)


@contract('P25', ['bin/evaluate_final_results.main', 'bin/evaluate_final_results.execute_in_batch', 'bin/evaluate_final_results.program_options'], mode='bounded', trials=80,
          bound='one to three runs, given or listed; both executions; every flag')
def program_of_results(c):
    """final results are evaluated once for each run given, in the named directory, on this machine or by one job each, which does the
    same with the same options; jobs are waited for unless told otherwise"""
    ex = c.choice('execution', ['interactive', 'batch', 'no', 'maybe'])
    n = c.choice('runs', [1, 2, 3])
    over, wait = c.choice('overwrite', [True, False]), c.choice('wait', [True, False])
    name = c.choice('name', ['final_results', 'mine'])
    with scratch() as d, inside(d):
        runs = [d / f'run{k}' for k in range(n)]
        for p in runs:
            p.mkdir()
        lst = write(d / 'list.txt', '\n'.join(map(str, runs)))
        argv = ['-ex', ex, '-wd', str(d), '-o', name, '-mem', '99', '-q', 'medium', '-ncj', '3', '-i'] + ([str(lst)] if c.choice('listed', [True, False]) else list(map(str, runs)))
        argv += (['--overwrite'] if over else []) + ([] if wait else ['-nowait'])
        parse = lambda x: c.target(EF + ':program_options')().parse_args(x)
        acts, opts, waited = [], [], []
        c.stub(EF + ':general_utils.configure_logger', lambda *a, **k: None)
        c.stub(EF + ':frc.create_final_results', lambda rundir=None, outdir_name=None, overwrite=None, **kw: acts.append((Path(rundir), outdir_name, bool(overwrite))))

        def submit(cmd_to_execute=None, logs_path=None, test=False, logs_start_str=None):
            c.ensure('really submitted', not test and Path(logs_path).is_dir())
            jobs.append((cmd_to_execute, Path(logs_path)))
            return f'j{len(jobs)}'
        jobs = []
        c.stub(EF + ':BsubInterface', lambda: ns(setOptions=lambda **k: opts.append(k), submitJob=submit, waitForJobsToComplete=lambda job_ids, **k: waited.append(list(job_ids))))
        go = lambda: c.target(EF + ':main')(parse(argv))
        want = [(p, name, over) for p in runs]
        if ex == 'maybe':
            c.ensure('refused', attempt(go, Exception) is not None and acts == [] and jobs == [])
            return
        go()
        if ex != 'batch':
            c.ensure('each once', acts == (want if ex == 'interactive' else []) and jobs == [])
            return
        c.ensure('nothing here', acts == [] and len(jobs) == n)
        c.ensure('options', all(o['queue'] == 'medium' and o['n_cores'] == 3 and o['memory_MB'] == 99 for o in opts) and opts)
        c.ensure('logs of each run', [l for _, l in jobs] == [p / name / 'logs' for p in runs])
        c.ensure('waited for', waited == ([[f'j{k + 1}' for k in range(n)]] if wait else []))
        for cmd, _ in list(jobs):
            w = shlex.split(cmd)
            c.ensure('program', w[0] == 'evaluate_final_results')
            c.target(EF + ':main')(parse(w[1:]))
        c.ensure('same results', acts == want and len(jobs) == n)


@contract('P25', ['bin/do_jobs_report.main'], weight=1)
def program_of_reports(c):
    """the report of a run is built, then written, for the directory given"""
    B = 'bin__do_jobs_report'
    with scratch() as d, inside(d):
        (d / 'run').mkdir()
        acts = []

        def maker(rundir=None):
            acts.append(Path(rundir))
            return ns(buildTaskReportMakers=lambda: acts.append('build'), writeReportFiles=lambda: acts.append('write'), run_summary='')
        c.stub(B + ':RunReportMaker', maker)
        c.target(B + ':main')(ns(rundir=c.choice('given', [str(d / 'run'), 'run', './run'])))
        c.ensure('report', acts == [d / 'run', 'build', 'write'])


# ---- directories and times -----------------------------------------------------------------------------------------------------

@contract('P25', [DX + '.DirectoryExplorer.selectDirectories', DX + '.DirectoryExplorer.getMandatoryDirectoryMatches', DX + '.DirectoryExplorer.getDirMatches',
                  DX + '.DirectoryExplorer.directoryFilter', DX + '.DirectoryExplorer.getMatchesGroupsDictionary', DX + '.DirectoryExplorer.selectWorkspaces', DX + '.DirectoryExplorer.__init__'],
          mode='bounded', trials=150, bound='eight directories at two depths; every combination of filters')
def directories_selected(c):
    """the directories of runs found are exactly those named as runs that pass every filter asked for, with the scenario and number of
    bins of their names"""
    names = {'run_optimistic_x': {'scenario': 'optimistic'}, 'run_pessimistic_y': {'scenario': 'pessimistic'}, 'optimistic_12_sp_bins_x': {'scenario': 'optimistic', 'nbins': '12'},
             'scenario_pessimistic__n_sp_bins_4_y': {'scenario': 'pessimistic', 'nbins': '4'}, 'other_x': None, 'my_run_optimistic': None, 'optimistic_bins_x': None, 'optimistic_3_sp_bins_y': {'scenario': 'optimistic', 'nbins': '3'}}
    deep = {k: c.choice('deep ' + k, [True, False]) for k in names}
    rec = c.choice('recursive', [True, False])
    kw = {k: v for k, v in dict(add_patterns=c.choice('patterns', [None, [r'_(?P<tag>[xy])$'], [r'sp', r'_x$']]), add_filters=c.choice('filters', [None, [lambda s: len(s) > 16]]),
                                containing=c.choice('containing', [None, ['bins'], ['optim', 'x']]), not_containing=c.choice('not containing', [None, ['y'], ['12', '4']])).items() if v is not None}
    import re
    with scratch() as d:
        d = d / 'run_12_sp_bins_x'
        (d / 'sub').mkdir(parents=True)
        write(d / 'run_optimistic_file')
        for k in names:
            (d / 'sub' / k if deep[k] else d / k).mkdir()
        E = c.target(DX + ':DirectoryExplorer')
        got = E(c.choice('given', [d, str(d), os.path.relpath(d)])).selectDirectories(recursive=rec, **kw)
        want = {}
        for k, g in names.items():
            if g is None or (deep[k] and not rec):
                continue
            g = dict(g)
            ms = [re.search(p, k) for p in kw.get('add_patterns', [])]
            if all(ms) and all(f(k) for f in kw.get('add_filters', [])) and all(s in k for s in kw.get('containing', [])) and not any(s in k for s in kw.get('not_containing', [])):
                for m in ms:
                    g.update(m.groupdict())
                want[str(d / 'sub' / k if deep[k] else d / k)] = g
        c.ensure('directories', {str(Path(k).resolve()): v for k, v in got.items()} == {str(Path(k).resolve()): v for k, v in want.items()} and len(got) == len(want))
        loaded = []
        c.stub(DX + ':WorkSpace', lambda p: ns(run_dir=Path(p), loadRunMetadata=lambda: loaded.append(Path(p))))
        ws = E(d).selectWorkspaces(recursive=rec, **kw)
        c.ensure('workspaces', sorted(w.run_dir for w in ws) == sorted(map(Path, want)) and sorted(loaded) == sorted(map(Path, want)))


@contract('P25', [FM + '.time_format'], weight=1)
def duration(c):
    """hours, minutes, seconds and milliseconds add up to the duration, each below what makes the next"""
    n = c.int('seconds', 0, 10 ** 7)
    h, m, s, ms = c.target(FM + ':time_format')(n)
    c.ensure('adds up', c.eq(h * 3600 + m * 60 + s, n))
    c.ensure('ranges', c.and_(0 <= m, m < 60, 0 <= s, s < 60, 0 <= h))
    c.ensure('milliseconds', c.eq(ms, 0))


@contract('P25', [FM + '.time_format', FM + '.string_time_format'], mode='bounded', trials=300, bound='durations up to 10^6 s')
def duration_with_fraction(c):
    """a duration written out is that duration to the microsecond"""
    t = c.real('time', 0, conc=(0.0, 10.0 ** c.choice('scale', [0, 1, 2, 4, 6])))
    h, m, s, ms = c.target(FM + ':time_format')(t)
    c.ensure('adds up', abs(h * 3600 + m * 60 + s + ms / 1000 - t) < 1e-6 and 0 <= ms <= 1000)
    c.ensure('written', c.target(FM + ':string_time_format')(t) == f'{h}h {m}m {s}s {ms}ms')


@contract('P25', [FM + '.datetime_str_format', FM + '.date_from_str', FM + '.str_to_bool', FM + '.str_to_float', GU + '.split_run_id'], mode='bounded', trials=200, bound='dates from 2000 to 2100')
def dates_of_runs(c):
    """dates are read back as written, names of runs give back what they are made of, words for true and false are read as such"""
    t = datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=c.int('second', 0, 3_000_000_000, conc=(0, 3_000_000_000)))
    sep = c.choice('separator', ['-', ':'])
    w = c.target(FM + ':datetime_str_format')
    c.ensure('read back', c.target(FM + ':date_from_str')(w(t, hour_sep=sep), hour_sep=sep) == t)
    c.ensure('by default', c.target(FM + ':date_from_str')(w(t)) == t)
    name, v = c.choice('name', ['run', 'optimistic_10_sp_bins', 'a_1.3.8_b']), c.choice('version', ['1.3.8', '2.0.0dev', '1.3.10', '1.12.3'])
    c.ensure('parts of the name', c.target(GU + ':split_run_id')(f'{name}_{v}_{w(t)}') == (name, v, t))
    c.ensure('plain name', c.target(GU + ':split_run_id')(name) == (name, None, None))
    b = c.target(FM + ':str_to_bool')
    c.ensure('words', [b(x) for x in ('true', 'True', 'TRUE', 'false', 'False')] == [True, True, True, False, False])
    c.raises('other words', ValueError, lambda: b('yes'))
    x = c.real('number')
    c.ensure('numbers', c.target(FM + ':str_to_float')(repr(x)) == x and c.target(FM + ':str_to_float')('1/4') == 0.25)


@contract('P25', [GU + '.convert_keyval_params_type', GU + '.get_defaults_from_inifile'], weight=1)
def values_of_options(c):
    """options written as words for true and false or as whole numbers become such values; others are kept"""
    d0 = {'a': c.choice('a', ['True', 'false', 'true', 'False']), 'b': c.choice('b', ['12', '0', '007']), 'c': c.choice('c', ['truex', '1.5', 'x12', '', '-3']), 'd': None, 'e': 4, 'f': True}
    want = {'a': d0['a'].lower() == 'true', 'b': int(d0['b']), 'c': d0['c'], 'd': None, 'e': 4, 'f': True}
    got = c.target(GU + ':convert_keyval_params_type')(dict(d0))
    c.ensure('values', got == want and all(type(got[k]) is type(want[k]) for k in want))
    with scratch() as d:
        f = write(d / 'x.ini', '[defaults]\n' + '\n'.join(f'{k} = {d0[k]}' for k in 'abc'))
        c.ensure('file', c.target(GU + ':get_defaults_from_inifile')(f) == {k: want[k] for k in 'abc'})


# ---- other programs ------------------------------------------------------------------------------------------------------------

@contract('P21', ['bin/compute_fisher_matrix.main', 'bin/compute_fisher_matrix.program_options', CL + '.FisherCLIArgs.__init__', CL + '.MainProgramCommandLineArgs.castArgTypes'], weight=1)
def program_of_matrices(c):
    """the Fisher matrices asked for, and no others, are computed from the noise and the derivatives of the run and left where the run
    keeps them or in the directory given"""
    B = 'bin__compute_fisher_matrix'
    where = c.choice('directory', [None, 'out'])
    noise = c.choice('noise', [None, Path('/a/noise.h5')])
    names = c.choice('matrices', [['wlwl'], ['wlwl_phph_wlph', 'spsp']])
    with scratch() as d:
        run = d / 'run'
        run.mkdir()
        argv = [*names, '-rd', str(run)] + (['-o', str(d / where)] if where else []) + (['-sn', str(noise)] if noise else [])
        a = vars(c.target(B + ':program_options')().parse_args(argv))
        ws = c.target(WS + ':WorkSpace')(run)
        ws.getParamsCollection = lambda: 'parameters'
        acts = []
        c.stub(B + ':gu.configure_logger', lambda *x, **k: None)
        c.stub(B + ':fm.string_time_format', lambda s: '')
        c.stub(B + ':WorkSpace', lambda r: (c.ensure('run', Path(r) == run), ws)[1])

        def prepare(ws_, shot_noise_file=None):
            c.ensure('noise of the run', ws_ is ws and shot_noise_file == noise)
            return 'noise', 'derivatives'
        c.stub(B + ':fisher_core.prepare_inputs', prepare)
        c.stub(B + ':fisher_core.compute_and_save_fishers', lambda brief_str_data_vectors, outdir, ws, phys_pars, delta_cls, dcoll_dvar_dict:
               acts.append((list(brief_str_data_vectors), Path(outdir), Path(outdir).is_dir(), phys_pars, delta_cls, dcoll_dvar_dict)))
        c.target(B + ':main')(a)
        c.ensure('computed once', acts == [(names, d / where if where else ws.base_fishers_dir, True, 'parameters', 'noise', 'derivatives')])


@contract('P21', ['bin/compute_delta_cls.main'], weight=1)
def program_of_noise(c):
    """the noise of a run is computed from that run and left where the run keeps it"""
    B = 'bin__compute_delta_cls'
    with scratch() as d:
        acts = []
        ws = ns(delta_cls_file=d / 'noise.h5')
        c.stub(B + ':WorkSpace', lambda r: (c.ensure('run', Path(r) == d), ws)[1])
        c.stub(B + ':compute_delta_cls', lambda w: (c.ensure('its run', w is ws), ns(saveToHDF5=acts.append))[1])
        c.target(B + ':main')(ns(rundir=d))
        c.ensure('saved', acts == [d / 'noise.h5'])
