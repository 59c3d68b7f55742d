"""What a run executes, keeps and reports: jobs, tasks, workspace, reports, batch submission."""
import argparse
import contextlib
import datetime
import itertools
import json
import os
import random
import stat
import tempfile
from pathlib import Path
from types import SimpleNamespace
from pyver.api import contract
from contracts.p21_pipeline import run_dir

ns = SimpleNamespace
RM, TR, WS, BS = 'seyfert.main.report_maker', 'seyfert.main.task_runners', 'seyfert.utils.workspace', 'seyfert.main.bsub_utils'
SC, OR, CL, FM = 'seyfert.main.seyfert_core', 'seyfert.main.orchestration', 'seyfert.config.cmd_line', 'seyfert.utils.formatters'
DX, GU = 'seyfert.utils.dir_explorer', 'seyfert.utils.general_utils'
OK, BAD, UNDEF, NOTRUN, PARTIAL = 'SUCCESS', 'FAILURE', 'UNDEFINED', 'NOT_EXECUTED', 'NOT_COMPLETED'
TASKS = ['PowerSpectrum', 'Angular', 'Derivative', 'Fisher']


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory(prefix='pyver') as d:
        yield Path(d).resolve()


def attempt(f, exc):
    """the exception f raises, if it is one of exc"""
    try:
        f()
    except exc as e:
        return e
    return None


# ---- reports -------------------------------------------------------------------------------------------------------------------

MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
DAYS = 'Mon Tue Wed Thu Fri Sat Sun'.split()


def stamp(t):
    return f'{DAYS[t.weekday()]} {MONTHS[t.month - 1]} {t.day:2d} {t.hour:02d}:{t.minute:02d}:{t.second:02d} {t.year}'


def out_text(job, start, end, hosts):
    return '\n'.join([f'Job {job}: <cmd> in cluster <c> Done', f'Job was executed on host(s) <{hosts[0]}.ge.infn.it>, in queue <long>',
                      *[f'                            <{h}.ge.infn.it>' for h in hosts[1:]],
                      f'Started at {stamp(start)}', f'Results reported on {stamp(end)}', 'CPU time :   12.5 sec.', ''])


@contract('P25', [RM + '.JobReport.setUp', RM + '.JobReport.getFiles', RM + '.JobReport.evaluateJobStatus', RM + '.JobReport.parseOutFile',
                  RM + '.JobReport.getExecutionTimeFromOutfile', RM + '.JobReport.convertDateTimeString',
                  RM + '.JobReport.getFilePathFromJobdirWithPattern', RM + '.JobReport.getReport', RM + '.JobReport.__init__'],
          mode='bounded', trials=120, bound='error files absent, empty or with text; batch or interactive names; one or two submissions; durations up to 40 days')
def report_of_a_job(c):
    """a job with an error message failed, one with an empty error file and its output succeeded, one that left nothing was not
    executed, whatever else is in its directory; its times, hosts and size are those written by its last submission"""
    batch, again = c.choice('names of batch jobs', [True, False]), c.choice('submitted twice', [False, False, True])
    err = c.choice('error file', [None, '', '', 'Traceback', 'Segmentation fault (core dumped)', '\n'])
    out = c.choice('output file', ['none', 'text', 'no times'])
    res, core = c.choice('result', [True, True, False]), c.choice('core file', [False, True])
    start = datetime.datetime(2026, 1, 1) + datetime.timedelta(seconds=c.int('start', 0, 10 ** 9, conc=(0, 10 ** 8)))
    dur = c.choice('duration', [0, 1, 59, 3600, 86399, 86400, 86401, 90061, 40 * 86400 + 5])
    with run_dir(c.int('listing', 0, 100, conc=(0, 100))) as d:
        job = d / 'dvar_h_step_p_1'
        job.mkdir()
        name = (lambda t, x: f'{x}_job_{t}.{x}') if batch else (lambda t, x: f'job_dvar_h_step_p_1_{t}.{x}')
        if again and err is not None:
            (job / name('2025-12-30T09-00-00', 'err')).write_text('an old error' if not err else '')
            (job / name('2025-12-30T09-00-00', 'out')).write_text(out_text(7, start, start + datetime.timedelta(5), ['old01']))
        if err is not None:
            (job / name('2025-12-31T23-59-59', 'err')).write_text(err)
        if out != 'none':
            (job / name('2025-12-31T23-59-59', 'out')).write_text(
                out_text(1234, start, start + datetime.timedelta(seconds=dur), ['wn01', 'farmui2', '4*wn15']) if out == 'text' else 'Job 1234: <cmd>\n')
        (job / 'job_dvar_h_step_p_1_2025-12-31T23-59-59.sh').write_text('#!/bin/bash')
        (job / 'logfile.log').write_text('error error')
        if res:
            (job / 'p_mm.h5').write_bytes(b'x' * 2500)
        if core:
            (job / 'core.1234').write_text('')
        r = c.target(RM + ':JobReport')(jobdir=job, output_pattern='*.h5')
        r.setUp()
        nothing = err is None and out == 'none'
        want = NOTRUN if nothing else UNDEF if err is None else BAD if err else OK if res else UNDEF
        c.ensure('status', r.status == want)
        c.ensure('core dump', r.core_dumped == (want == BAD and (core or 'core dump' in err)))
        c.ensure('size', r.output_size_MB == (0.0025 if want == OK else 0))
        if out == 'text':
            c.ensure('duration', r.execution_time_secs == dur)
            c.ensure('job', r.job_id == '1234')
            c.ensure('hosts', r.exec_hosts == ['wn01', '4*wn15'])
        elif out == 'no times':
            c.ensure('no times', r.execution_time_secs == 0 and r.job_id == '1234' and r.exec_hosts == [])
        elif not again:
            c.ensure('nothing known', r.execution_time_secs == 0 and r.job_id is None)
        if not (want == UNDEF and err is None):
            text = r.getReport()
            c.ensure('report', 'dvar_h_step_p_1' in text and f'Status: {want}\n' in text)
            c.ensure('error in the report', want != BAD or err in text)
            c.ensure('result in the report', (want == OK) == ('p_mm.h5' in text))


def status_of(jobs):
    """the status of a task, or of a run, from those of its parts"""
    if any(s == BAD for s in jobs):
        return BAD
    if all(s == NOTRUN for s in jobs):
        return NOTRUN
    if all(s == OK for s in jobs):
        return OK
    if all(s in (OK, NOTRUN) for s in jobs):
        return PARTIAL
    return UNDEF


@contract('P25', [RM + '.TaskReportMaker.buildJobsReports', RM + '.TaskReportMaker.evaluateStatus', RM + '.TaskReportMaker.buildReportSummary',
                  RM + '.TaskReportMaker.writeToFiles', RM + '.TaskReportMaker.__init__'], weight=2)
def report_of_a_task(c):
    """the report of a task counts each of its jobs once under its own status; the task failed when a job failed, succeeded when all
    did and was not executed when none was; times and sizes are the mean and the sum over its jobs"""
    n = c.choice('jobs', [0, 1, 2, 3])
    kinds = [OK, BAD, UNDEF, NOTRUN]
    states = [c.choice(f'status {k}', kinds if n < 3 else kinds[:]) for k in range(n)]
    task = c.choice('task', ['Angular', 'Fisher'])
    times, sizes = [c.real(f't{k}', positive=True) for k in range(n)], [c.real(f'm{k}', positive=True) for k in range(n)]
    made = []
    with run_dir(3) as d:
        w = d / task
        w.mkdir()
        (w / 'a_file.json').write_text('{}')
        for k in range(n):
            (w / f'job{k}').mkdir()

        def job(jobdir=None, output_pattern=None):
            k = int(Path(jobdir).name[3:])
            c.ensure('output of the task', output_pattern == ('*.csv' if task == 'Fisher' else '*.h5'))
            made.append(k)
            return ns(setUp=lambda: None, status=states[k], execution_time_secs=times[k], output_size_MB=sizes[k], job_id=str(10 - k),
                      exec_hosts=[f'h{k}'], core_dumped=states[k] == BAD and k == 0, getReport=lambda: f'<report {k}>')
        c.stub(RM + ':JobReport', job)
        c.stub(RM + ':fm.string_time_format', lambda t: 'a time')
        r = c.target(RM + ':TaskReportMaker')(w)
        r.buildJobsReports()
        r.evaluateStatus()
    c.ensure('every job once', sorted(made) == list(range(n)) and r.n_jobs == n and len(r.job_reports) == n)
    c.ensure('counts', (r.n_failed_jobs, r.n_succeeded_jobs, r.n_not_executed_jobs, r.n_undefined_jobs)
             == tuple(states.count(s) for s in (BAD, OK, NOTRUN, UNDEF)))
    c.ensure('core dumps', r.n_core_dumps == int(n > 0 and states[0] == BAD))
    c.ensure('status', r.status == status_of(states))
    c.ensure('mean time', c.eq(r.mean_exec_time * n, sum(times[1:], times[0])) if n else r.mean_exec_time == 0)
    c.ensure('total size', c.eq(r.total_output_size_MB, sum(sizes[1:], sizes[0]) if n else 0))
    c.ensure('hosts', r.hosts == dict(good={f'h{k}' for k in range(n) if states[k] == OK}, bad={f'h{k}' for k in range(n) if states[k] == BAD}))
    r.total_output_size_MB = 1.0
    r.buildReportSummary()
    c.ensure('summary', f' {task} {r.status} ' in r.summary)
    if r.status != NOTRUN:
        c.ensure('numbers of the summary', f'{states.count(OK)}/{n} jobs succeeded' in r.summary and f'{states.count(BAD)}/{n} jobs failed' in r.summary)
    written = {'report': [], 'summary': []}
    r.writeToFiles(report_outfile=ns(write=written['report'].append), summary_outfile=ns(write=written['summary'].append))
    c.ensure('summary file', ''.join(written['summary']) == r.summary)
    c.ensure('report file', written['report'][0] == r.summary and sorted(written['report'][1:]) == [f'<report {k}>' for k in range(n)])


@contract('P25', [RM + '.RunReportMaker.writeReportFiles', RM + '.RunReportMaker.buildTaskReportMakers', RM + '.RunReportMaker.__init__'], weight=2)
def report_of_a_run(c):
    """the report of a run covers the tasks the run executed itself, each once; the run failed when a task failed and succeeded only
    when every task did"""
    what = [c.choice(t, ['absent', 'linked', OK, BAD, NOTRUN, UNDEF, PARTIAL]) for t in TASKS[:3]] + [c.choice('Fisher', ['absent', OK])]
    with scratch() as d:
        run = d / 'run_x'
        run.mkdir()
        (d / 'elsewhere').mkdir()
        own = {}
        for t, s in zip(TASKS, what):
            if s == 'linked':
                (run / t).symlink_to(d / 'elsewhere')
            elif s != 'absent':
                (run / t).mkdir()
                own[t] = s
        steps = []

        def task(workdir):
            t = Path(workdir).name
            step = lambda x: lambda: steps.append((t, x))

            def write(report_outfile, summary_outfile):
                report_outfile.write(f'<{t}>')
                summary_outfile.write(f'({t})')
            return ns(buildJobsReports=step(1), evaluateStatus=step(2), buildReportSummary=step(3), status=own.get(t, 'foreign'), summary=f'({t})', writeToFiles=write)
        c.stub(RM + ':TaskReportMaker', task)
        r = c.target(RM + ':RunReportMaker')(run)
        r.buildTaskReportMakers()
        r.writeReportFiles()
        c.ensure('own tasks', [s for s in steps] == [(t, k) for t in TASKS if t in own for k in (1, 2, 3)])
        states = list(own.values())
        want = BAD if BAD in states else NOTRUN if not states else OK if all(s == OK for s in states) \
            else PARTIAL if all(s in (OK, NOTRUN) for s in states) else UNDEF
        c.ensure('status', r.status == want)
        head = f'Run run_x: {want}\n'
        c.ensure('report', (run / 'report_run_x.log').read_text() == head + ''.join(f'<{t}>' for t in own))
        c.ensure('summary', (run / 'summary_run_x.log').read_text() == head + ''.join(f'({t})' for t in own) == r.run_summary)


# ---- workspace -----------------------------------------------------------------------------------------------------------------

@contract('P25', [WS + '.WorkSpace.createInputFilesDir', WS + '.WorkSpace.theInputFilesDict', WS + '.WorkSpace.getTaskJSONPath',
                  WS + '.WorkSpace.getForecastConfigFilePath', WS + '.WorkSpace.getParamsJSONFile', WS + '.WorkSpace.getInputDataDirPath',
                  WS + '.WorkSpace.getTaskJSONConfiguration', WS + '.WorkSpace.getTasksJSONConfigs', WS + '.WorkSpace.getParamsCollection',
                  WS + '.WorkSpace.getForecastConfiguration', 'seyfert.utils.filesystem_utils.get_input_files_dict_for_rundir',
                  'seyfert.utils.filesystem_utils.get_forecast_config_file_from_rundir', 'seyfert.utils.filesystem_utils.get_params_file_from_rundir',
                  'seyfert.utils.filesystem_utils.get_forecast_input_data_dir_from_rundir'], mode='bounded', trials=40,
          bound='file names equal, different or called as the parameters; run directory moved afterwards or not')
def inputs_of_a_run(c):
    """a run keeps its own copy of every input file and of the parameters, whatever their names; they are those read later, also when
    the originals change or the run directory moves"""
    kind = c.choice('names', ['different', 'equal', 'params', 'two equal'])
    moved = c.choice('moved', [False, True])
    with scratch() as d:
        src, names = {}, ['forecast'] + TASKS
        random.Random(c.int('order', 0, 100, conc=(0, 100))).shuffle(names)
        for k, t in enumerate(names):
            f = d / f'dir{k}' / {'different': f'{t}.json', 'equal': 'config.json', 'params': 'params.json' if k == 1 else f'c{k}.json',
                                 'two equal': 'same.json' if k in (1, 3) else f'c{k}.json'}[kind]
            f.parent.mkdir()
            f.write_text(json.dumps({'task': t}))
            src[t] = f if k % 2 else str(f)
        data = d / 'input_data'
        data.mkdir()
        run = d / 'run'
        run.mkdir()
        W = c.target(WS + ':WorkSpace')
        ws = W(run)
        pars = ns(writeJSON=lambda f: Path(f).write_text('{"the": "parameters"}'))
        ws.createInputFilesDir(src_input_files=src, phys_pars=pars, input_data_dir=c.choice('given as', [data, Path(os.path.relpath(data))]))
        for f in src.values():
            Path(f).write_text('changed')
        if moved:
            run.rename(d / 'moved')
            ws = W(d / 'moved')
        text = lambda f: json.loads(Path(f).read_text())
        for t in TASKS:
            c.ensure('configuration of the task', text(ws.getTaskJSONPath(t)) == {'task': t})
        c.ensure('forecast configuration', text(ws.getForecastConfigFilePath()) == {'task': 'forecast'})
        c.ensure('parameters', text(ws.getParamsJSONFile()) == {'the': 'parameters'})
        c.ensure('data', ws.getInputDataDirPath() == data)
        c.ensure('inside the run', all(Path(f).resolve().parent == ws.input_files_dir for f in
                                       [ws.getTaskJSONPath(t) for t in TASKS] + [ws.getForecastConfigFilePath(), ws.getParamsJSONFile()]))
        c.ensure('listed', set(ws.theInputFilesDict()) == set(names) | {'params', 'input_data_dir'})
        c.raises('unknown task', KeyError, lambda: ws.getTaskJSONPath('Results'))
        read = []
        c.stub(WS + ':mcfg.config_for_task', lambda name, f: read.append((name, text(f))) or f'configuration of {name}')
        c.ensure('read', ws.getTasksJSONConfigs() == {t: f'configuration of {t}' for t in TASKS} and read == [(t, {'task': t}) for t in TASKS])
        c.stub(WS + ':PhysicalParametersCollection.fromJSON', lambda f: text(f))
        c.ensure('parameters read', ws.getParamsCollection() == {'the': 'parameters'})
        calls = []

        def config(input_file=None, input_data_dir=None):
            return ns(file=text(input_file), data=input_data_dir, loadPhysicalParametersFromJSONConfig=lambda: calls.append(1))
        c.stub(WS + ':ForecastConfig', config)
        load, other = c.choice('load', [True, False]), c.choice('other data', [None, d / 'dir1'])
        f = ws.getForecastConfiguration(load_params=load, input_data_dir=other)
        c.ensure('forecast read', f.file == {'task': 'forecast'} and f.data == (other or data) and len(calls) == load)


@contract('P25', [WS + '.WorkSpace.symlinkToExternalDirs', WS + '.WorkSpace.createSymlink'], mode='bounded', trials=60,
          bound='every subset of linked tasks, some already present, run directory moved with its neighbours or not')
def external_directories(c):
    """a task that is not run uses the given directory, and its stored covariance when it is that of the spectra; a directory that
    is already there is kept, an unknown task or missing directory is refused; the links survive moving the whole tree"""
    with scratch() as d:
        root = d / 'tree'
        old, run = root / 'old_run', root / 'runs' / 'new'
        for p in (old, run):
            p.mkdir(parents=True)
        W = c.target(WS + ':WorkSpace')
        ws = W(run)
        ext, kept = {}, set()
        for t in TASKS:
            (old / t).mkdir()
            (old / t / 'mark').write_text(t)
            if c.choice(t, [True, False]):
                ext[t] = old / t if c.choice('path', [True, False]) else str(old / t)
                if c.choice(t + ' present', [False, False, True]):
                    (run / t).mkdir()
                    kept.add(t)
        (old / 'delta_cls.h5').write_text('covariance')
        if c.choice('spectra of a third run', [False, True]):
            first = root / 'first_run'
            first.mkdir()
            (old / 'Angular').rename(first / 'Angular')
            (old / 'Angular').symlink_to(Path('../first_run/Angular'))
            (first / 'delta_cls.h5').write_text('covariance of the third run')
        link = c.choice('covariance', [True, False])
        bad = c.choice('refused', [None, None, None, 'task', 'directory', 'no covariance'])
        if bad == 'task':
            c.raises('unknown task', KeyError, lambda: ws.symlinkToExternalDirs({**ext, 'Results': old}))
            c.ensure('nothing linked', not any((run / t).is_symlink() for t in TASKS))
            return
        if bad == 'directory' or (bad == 'no covariance' and link and 'Angular' in ext and 'Angular' not in kept):
            if bad == 'directory':
                ext = {'Derivative': old / 'nothing'}
                c.require('Derivative' not in kept)
            else:
                (old / 'delta_cls.h5').unlink()
            c.raises('missing', FileNotFoundError, lambda: ws.symlinkToExternalDirs(ext, link_delta_cls=link))
            return
        ws.symlinkToExternalDirs(ext, src_relative_to_rundir=True, link_delta_cls=link)
        if c.choice('moved', [False, True]):
            root.rename(d / 'moved')
            root = d / 'moved'
        run = root / 'runs' / 'new'
        for t in TASKS:
            p = run / t
            if t in kept:
                c.ensure('kept', p.is_dir() and not p.is_symlink() and not list(p.iterdir()))
            elif t in ext:
                c.ensure('linked', p.is_symlink() and (p / 'mark').read_text() == t and p.resolve() == (root / 'old_run' / t).resolve())
            else:
                c.ensure('absent', not os.path.lexists(p))
        with_cov = link and 'Angular' in ext and 'Angular' not in kept
        f = run / 'delta_cls.h5'
        c.ensure('covariance', (f.is_file() and f.read_text() == 'covariance') if with_cov else not os.path.lexists(f))
        c.ensure('originals', all((root / 'old_run' / t / 'mark').read_text() == t for t in TASKS))


@contract('P25', [WS + '.WorkSpace.getRunMetadata', WS + '.WorkSpace.loadRunMetadata', WS + '.WorkSpace.getResultsDir', WS + '.WorkSpace.getClDerivativeFile',
                  WS + '.WorkSpace.collectClDerivativeFiles', WS + '.WorkSpace.collectFisherParamsPairs', WS + '.WorkSpace.__init__',
                  WS + '.WorkSpace.input_files_dir', WS + '.WorkSpace.pmm_dir', WS + '.WorkSpace.cl_dir', WS + '.WorkSpace.der_dir',
                  WS + '.WorkSpace.fish_elems_dir', WS + '.WorkSpace.final_results_dir'], mode='bounded', trials=12, bound='sets of up to three parameters, any listing order')
def files_of_a_run(c):
    """every task has its own directory; derivatives are found under their own parameter; metadata are those of the run"""
    with run_dir(c.int('listing', 0, 50, conc=(0, 50))) as d:
        ws = c.target(WS + ':WorkSpace')(d)
        own = [ws.pmm_dir, ws.cl_dir, ws.der_dir, ws.fish_elems_dir]
        c.ensure('tasks', own == [d / t for t in TASKS] and ws.task_dirs == {t: d / t for t in TASKS})
        every = own + [ws.input_files_dir, ws.final_results_dir, ws.niz_file, ws.delta_cls_file, ws.metadata_file, ws.auto_f_ells_file, ws.base_fishers_dir]
        c.ensure('distinct, inside the run', len(set(every)) == len(every) and all(p.parent == d for p in every))
        c.ensure('no metadata yet', ws.getRunMetadata() == {})
        ws.metadata_file.write_text('{"run_id": "x", "a": [1]}')
        ws.loadRunMetadata()
        c.ensure('metadata', ws.run_metadata == ws.getRunMetadata() == {'run_id': 'x', 'a': [1]})
        names = c.choice('parameters', [['h'], ['h', 'bgph1', 'bgph10'], ['w0', 'wa']])
        for x in names:
            (d / 'Derivative' / x).mkdir(parents=True)
            for f in (f'cl_derivatives_wrt_{x}.h5', 'params.json', 'logfile.log'):
                (d / 'Derivative' / x / f).write_text('')
            for y in names:
                (d / 'Fisher' / f'{x}__{y}').mkdir(parents=True)
        (d / 'Derivative' / 'notes.txt').write_text('')
        files = ws.collectClDerivativeFiles()
        c.ensure('derivatives', files == {x: d / 'Derivative' / x / f'cl_derivatives_wrt_{x}.h5' for x in names})
        c.ensure('one derivative', all(ws.getClDerivativeFile(x) == files[x] for x in names))
        c.ensure('pairs', ws.collectFisherParamsPairs() == set(itertools.product(names, names)))
        (d / 'Derivative' / names[0] / 'cl_derivatives_2.h5').write_text('')
        c.raises('ambiguous', Exception, lambda: ws.getClDerivativeFile(names[0]))
        c.ensure('results', ws.getResultsDir('r', 'lcdm', 'marg_after') == d / 'r' / 'lcdm' / 'marg_after')
        c.ensure('default results', ws.getResultsDir() == ws.final_results_dir / 'w0_wa_CDM' / 'marg_before')


# ---- jobs ----------------------------------------------------------------------------------------------------------------------

def runner(c, kind, d, execution='interactive', **kw):
    f = d / 'the_config.json'
    f.write_text('{"mark": 17, "boltzmann_codes_settings": {"camb": {"ini_filename": "camb_planck_2018.ini"}}}')
    args = ns(**{**dict(verbose=False, execution=execution, queue='long', memory=2048, n_cores_per_job=3, overwrite_results=False), **kw})
    ws = c.target(WS + ':WorkSpace')(d)
    return c.target(TR + f':{kind}TaskRunner')(workspace=ws, args=args, json_input=f, forecast_config=ns(phys_pars=ns(), n_sp_bins=4)), ws, args


@contract('P25', [TR + '.TaskRunner.executeCommand', TR + '.TaskRunner.executeJobsInteractively', TR + '.TaskRunner.run', TR + '.TaskRunner.__init__',
                  TR + '.PowerSpectrumTaskRunner.__init__', TR + '.AngularTaskRunner.__init__', TR + '.DerivativeTaskRunner.__init__'],
          mode='bounded', trials=24, bound='up to three real shell commands, each succeeding, failing silently, or printing an error')
def jobs_one_after_another(c):
    """jobs run one after another, each once, in their order; a job that exits with an error or prints one stops the run, and no job
    runs when execution is off"""
    kind = c.choice('task', TASKS[:3])
    ex = c.choice('execution', ['interactive', 'interactive', 'interactive', 'no'])
    n = c.choice('jobs', [0, 1, 3])
    what = [c.choice(f'job {k}', ['fine', 'fine', 'output', 'silent failure', 'message', 'both', 'killed']) for k in range(n)]
    with scratch() as d:
        t, ws, args = runner(c, kind, d, ex)
        for k, w in enumerate(what):
            sh = d / f'job{k}.sh'
            sh.write_text(f'#!/bin/bash\necho {k} >> {d}/done\n' + {'fine': 'true', 'output': 'echo all right', 'silent failure': 'exit 3', 'message': 'echo oops 1>&2',
                                                                   'both': 'echo oops 1>&2; exit 1', 'killed': 'kill -9 $$'}[w] + '\n')
            sh.chmod(0o755)
            t.shell_scripts_paths.append(sh)
        first = next((k for k, w in enumerate(what) if w not in ('fine', 'output')), None)
        J = c.target(TR + ':JobFailError')
        failed = attempt(t.run, J)
        ran = [int(x) for x in (d / 'done').read_text().split()] if (d / 'done').exists() else []
        if ex == 'no':
            c.ensure('nothing runs', ran == [] and failed is None)
        else:
            c.ensure('failure stops the run', (failed is not None) == (first is not None))
            c.ensure('each job once, in order', ran == list(range(n if first is None else first + 1)))


@contract('P25', [TR + '.TaskRunner.submitBatchJobs', TR + '.TaskRunner.run'], weight=1)
def jobs_in_batch(c):
    """in batch every job is submitted once, with the requested queue, memory and cores, leaving its files in its own directory, and
    all of them are waited for"""
    n = c.choice('jobs', [1, 3])
    ex = c.choice('execution', ['batch', 'no'])
    with scratch() as d:
        t, ws, args = runner(c, c.choice('task', TASKS[:3]), d, ex, queue=c.choice('queue', ['long', 'medium']), memory=c.int('memory', 1, 10 ** 6), n_cores_per_job=c.int('cores', 1, 64))
        t.shell_scripts_paths = [d / f'dir{k}' / f'job{k}.sh' for k in range(n)]
        log = []

        def submit(cmd_to_execute=None, logs_path=None, **kw):
            c.ensure('submitted for real', not kw.get('test'))
            log.append((cmd_to_execute, logs_path))
            return f'id{len(log)}'
        opts = []
        t.bsub = ns(setOptions=lambda **kw: opts.append(kw), submitJob=submit, waitForJobsToComplete=lambda ids, **kw: log.append(('wait', list(ids))))
        c.stub(TR + ':fm.string_time_format', lambda s: '')
        t.run()
    if ex == 'no':
        c.ensure('nothing submitted', log == [])
        return
    c.ensure('options', len(opts) == 1 and opts[0]['queue'] == args.queue)
    c.ensure('memory and cores', c.and_(c.eq(opts[0]['memory_MB'], args.memory), c.eq(opts[0]['n_cores'], args.n_cores_per_job)))
    c.ensure('each job once, in its directory', log[:-1] == [(p, p.parent) for p in t.shell_scripts_paths])
    c.ensure('waited for all', log[-1] == ('wait', [f'id{k + 1}' for k in range(n)]))


@contract('P25', [TR + '.TaskRunner.writeJobShellScript', TR + '.TaskRunner.fillJobDir', TR + '.TaskRunner.collectShellScripts'], mode='bounded', trials=12,
          bound='the three tasks, with and without a virtual environment, one to three jobs, scripts run for real with a stand-in program')
def script_of_a_job(c):
    """the script of a job runs the program of its task in the directory of the job, on this run and with the configuration written
    there"""
    kind, venv, n = c.choice('task', TASKS[:3]), c.choice('environment', [True, False]), c.choice('jobs', [1, 3])
    with scratch() as d:
        t, ws, args = runner(c, kind, d)
        t.venv_path = str(d / 'venv') if venv else None
        (d / 'venv' / 'bin').mkdir(parents=True)
        (d / 'venv' / 'bin' / 'activate').write_text('export ACTIVE=yes\n')
        (d / 'programs').mkdir()
        prog = {'PowerSpectrum': 'compute_pmm', 'Angular': 'compute_cls', 'Derivative': 'compute_derivatives'}[kind]
        p = d / 'programs' / prog
        p.write_text('#!/bin/bash\necho "$PWD|$ACTIVE|$*" >> ' + f'{d}/called\n')
        p.chmod(0o755)
        jobs = [d / kind / f'job{k}' for k in range(n)]
        for j in jobs:
            j.mkdir(parents=True)
            t.fillJobDir(j)
        env = dict(os.environ, PATH=f'{d}/programs:' + os.environ['PATH'])
        env.pop('ACTIVE', None)
        import subprocess
        for s in t.shell_scripts_paths:
            subprocess.run([str(s)], env=env, check=True, cwd='/')
        calls = [x.split('|') for x in (d / 'called').read_text().splitlines()]
        c.ensure('directories', [Path(x[0]) for x in calls] == jobs)
        c.ensure('environment', all(x[1] == ('yes' if venv else '') for x in calls))
        for x, j in zip(calls, jobs):
            w = x[2].split()
            o = dict(zip(w[::2], w[1::2]))
            c.ensure('arguments', o['--workdir'] == str(j) and o['--rundir'] == str(d) and o['--main_config'] == 'the_config.json' and '/' not in o['--logfile'])
            c.ensure('configuration', json.loads((j / 'the_config.json').read_text())['mark'] == 17)
        c.raises('no directory', TypeError, lambda: t.fillJobDir(None))


VECTORS = ['[phph]', '[spsp]', '[wlwl]', '[phph+spsp+phsp]', '[phph+wlwl+phwl]']


@contract('P25', [TR + '.FisherTaskRunner.executeJobsInteractively', TR + '.FisherTaskRunner.submitBatchJobs', TR + '.FisherTaskRunner.clearOutput',
                  TR + '.FisherTaskRunner.writeFisherCommand', TR + '.FisherTaskRunner.loadFisherDatavectorBriefStrings', TR + '.FisherTaskRunner.__init__',
                  TR + '.FisherTaskRunner.createJobDirStructure'], mode='bounded', trials=40,
          bound='interactive or batch, overwriting or not, stored auto-correlations or not')
def fisher_jobs(c):
    """the Fisher matrix of every selected data vector of this run is computed once, those of the single tracers before the others;
    stored results are removed only when asked for, and nothing else is"""
    ex, over = c.choice('execution', ['interactive', 'batch']), c.choice('overwrite', [True, False])
    stored, bins = c.choice('stored', [True, False]), c.choice('bins', [4, 24, 25, 40])
    with scratch() as d:
        t, ws, args = runner(c, 'Fisher', d, ex, overwrite_results=over)
        t.forecast_config.n_sp_bins = bins
        c.stub(TR + ':fisher_utils.load_selected_data_vectors', lambda *a: [ns(toBriefString=lambda v=v: v) for v in VECTORS])
        c.stub(TR + ':time.sleep', lambda s: None)
        t.createJobDirStructure()
        others = [ws.delta_cls_file, ws.niz_file, d / 'Angular' / 'cls.h5', ws.metadata_file]
        for f in others + ([ws.auto_f_ells_file, ws.base_fishers_dir / 'fisher_old.hdf5'] if stored else []):
            f.parent.mkdir(exist_ok=True)
            f.write_text('x')
        log = []

        def state():
            return (ws.auto_f_ells_file.exists(), (ws.base_fishers_dir / 'fisher_old.hdf5').exists())

        def call(cmd):
            log.append((cmd, state()))

        def submit(cmd_to_execute=None, logs_path=None, logs_start_str=None, **kw):
            c.ensure('submitted for real', not kw.get('test'))
            log.append((cmd_to_execute, state()))
            names.append((str(logs_path), logs_start_str))
            return f'id{len(log)}'
        names, opts, waits = [], [], []
        t.executeCommand = call
        t.bsub = ns(setOptions=lambda **kw: opts.append(kw), submitJob=submit, waitForJobsToComplete=lambda ids, **kw: waits.append((len(log), list(ids))),
                    getResourceUsageTable=lambda **kw: 1 / 0)
        t.run()
        kept = stored and not over
        c.ensure('stored results', all(x[1] == (kept, kept) for x in log))
        c.ensure('other files', all(f.read_text() == 'x' for f in others))
        words = [x[0].split() for x in log]
        for w in words:
            c.ensure('command', w[0] == 'compute_fisher_matrix' and w[-2:] == ['--rundir', str(d)])
        vs = [w[1:-2] for w in words]
        if ex == 'interactive':
            c.ensure('single tracers first, then the others', vs == [VECTORS[:3], VECTORS[3:]])
            return
        skip = kept
        c.ensure('single tracers first, then one job each', vs == ([] if skip else [VECTORS[:3]]) + [[v] for v in VECTORS[3:]])
        ids = [f'id{k + 1}' for k in range(len(log))]
        c.ensure('waited for the single tracers, then for all', waits == ([] if skip else [(1, ids[:1])]) + [(len(log), ids[0 if skip else 1:])])
        c.ensure('files of different jobs', len(set(names)) == len(names) and all(Path(x[0]).parent == ws.base_fishers_dir for x in names))
        c.ensure('options', opts[-1]['queue'] == 'long' and opts[-1]['n_cores'] == 3 and opts[-1]['memory_MB'] == (10000 if bins > 24 else 4000))


# ---- batch system --------------------------------------------------------------------------------------------------------------

@contract('P25', [BS + '.BsubInterface.submitJob', BS + '.BsubInterface.buildBsubCommand', BS + '.BsubInterface.buildBsubOptsString',
                  BS + '.BsubInterface.setOptions', BS + '.BsubInterface.buildResourceSpecString', BS + '.BsubInterface.getJobID',
                  BS + '.BsubInterface.decodeIfNotString', BS + '.BsubInterface.__init__', BS + '.BsubInterface.req_memory_MB'], weight=1)
def submission(c):
    """a job is submitted once with its queue, memory, cores and files and the identifier returned is that of the batch system; in
    test mode nothing is submitted"""
    q, mem, n = c.choice('queue', ['long', 'medium']), c.choice('memory', [1, 2048, 10000]), c.choice('cores', [1, 16])
    test, sep, start = c.choice('test', [False, True]), c.choice('separate', [True, False]), c.choice('start', ['job', '[phph]'])
    ran = []

    def run(cmd, **kw):
        ran.append(cmd)
        return ns(stdout=b'Job <4321> is submitted to queue <long>.\n', stderr=b'')
    c.stub(BS + ':sp.run', run)
    with scratch() as d:
        b = c.target(BS + ':BsubInterface')()
        b.setOptions(queue=q, n_cores=n, memory_MB=mem)
        i = b.submitJob('the command --x 1', logs_path=d, logs_start_str=start, test=test, separate_err_out_dirs=sep)
        if test:
            c.ensure('nothing submitted', ran == [] and i is None)
            return
        c.ensure('identifier', i == '4321' and len(ran) == 1)
        w = ran[0]
        c.ensure('command', w.startswith('bsub ') and w.endswith('the command --x 1'))
        o = w.split()
        at = lambda k: o[o.index(k) + 1]
        c.ensure('options', at('-q') == q and at('-M') == str(mem) and at('-n') == str(n))
        c.ensure('resources', f'rusage[mem={mem}]' in w and f'mem>{mem}]' in w)
        out, err = Path(at('-o')), Path(at('-e'))
        c.ensure('files', out.name.startswith(f'out_{start}_') and err.name.startswith(f'err_{start}_') and out.suffix == '.out' and err.suffix == '.err')
        c.ensure('directories', (out.parent, err.parent) == ((d / 'out', d / 'err') if sep else (d, d)) and out.parent.is_dir() and err.parent.is_dir())


ROW = '{:<8}{:<9}{:<6}{:<11}{:<28}{:<24}{:<11}{}'


def bjobs(states, first=100, user='lucap'):
    return '\n'.join([ROW.format('JOBID', 'USER', 'STAT', 'QUEUE', 'FROM_HOST', 'EXEC_HOST', 'JOB_NAME', 'SUBMIT_TIME')]
                     + [ROW.format(first + k, user, s, 'long', 'farmui.ge.infn.it', '-' if s == 'PEND' else '4*wn1', '*a cmd 12 x', 'Nov 20 10:00')
                        for k, s in enumerate(states)]) + '\n'


@contract('P25', [BS + '.BsubInterface.waitForJobsToComplete', BS + '.BsubInterface.getBjobsTable', BS + '.BsubInterface.parseBjobsOutput', BS + '.count_down'],
          mode='bounded', trials=60, bound='up to four jobs, up to six checks')
def waiting(c):
    """waiting ends when every job is done, never while one is pending or running (unless the time allowed is over), and a job that
    exited with an error raises one"""
    n = c.choice('jobs', [1, 2, 4])
    table = [[c.choice(f's{k},{t}', ['DONE', 'RUN', 'PEND', 'DONE', 'DONE']) for k in range(n)] for t in range(c.choice('checks', [1, 3, 5]))]
    last = ['DONE'] * n
    bad = c.choice('exit', [False, False, True])
    if bad:
        last[c.int('which', 0, n - 1, conc=(0, n - 1))] = 'EXIT'
    table.append(last)
    asked, user = [], c.choice('user', ['lucap', 'luca01', 'l.pag'])

    def run(cmd, **kw):
        asked.append(cmd)
        return ns(stdout=bjobs(table[min(len(asked), len(table)) - 1], user=user).encode())
    c.stub(BS + ':sp.run', run)
    c.stub(BS + ':time.sleep', lambda s: None)
    b = c.target(BS + ':BsubInterface')()
    ids = [str(100 + k) for k in range(n)]
    E = c.target(BS + ':ExitedBatchJobError')
    e = attempt(lambda: b.waitForJobsToComplete(ids, check_time_resolution_secs=2), E)
    first = next(k for k, row in enumerate(table) if all(s == 'DONE' for s in row) or 'EXIT' in row)
    c.ensure('asked until then', len(asked) == first + 1)
    c.ensure('these jobs', all(set(ids) <= set(x.split()) for x in asked))
    c.ensure('failure', (e is not None) == ('EXIT' in table[first]))


@contract('P25', [BS + '.BsubInterface.parseBjobsOutput'], mode='bounded', trials=20, bound='up to four jobs, both tables')
def table_of_jobs(c):
    """the table of jobs has one row per job with its own state"""
    n = c.choice('jobs', [0, 1, 2, 4])
    st = [c.choice(f's{k}', ['DONE', 'RUN', 'PEND', 'EXIT']) for k in range(n)]
    b = c.target(BS + ':BsubInterface')()
    t = bjobs(st)
    df = b.parseBjobsOutput(t if c.choice('text', [True, False]) else t.encode())
    c.ensure('rows', list(df['JOBID']) == [str(100 + k) for k in range(n)] and list(df['STAT']) == st)


@contract('P25', [BS + '.BsubInterface.getResourceUsageTable', BS + '.BsubInterface.extractStartEndTimesFromOutText', BS + '.BsubInterface.extractDateTimeFromOut'],
          mode='bounded', trials=20, bound='one to three jobs, durations up to 40 days, years 2020 to 2031')
def resources(c):
    """the resources listed for each job are those of its own output file"""
    n = c.choice('jobs', [1, 3])
    with run_dir(c.int('listing', 0, 50, conc=(0, 50))) as d:
        want = {}
        for k in range(n):
            start = datetime.datetime(c.choice(f'year {k}', [2020, 2021, 2022, 2031]), 1, 1) + datetime.timedelta(seconds=c.int(f'start {k}', 0, 10 ** 8, conc=(0, 3 * 10 ** 7)))
            dur = c.choice(f'duration {k}', [1, 3600, 86399, 86400, 90061, 40 * 86400])
            name = ['[phph]', 'auto_corrs', '[phph+spsp_x]'][k]
            m = [c.int(f'm{k}{x}', 1, 9999, conc=(1, 9999)) for x in range(5)]
            text = out_text(9, start, start + datetime.timedelta(seconds=dur), ['wn1']) + (
                f'    CPU time :                                   {m[0]}.50 sec.\n    Max Memory :   {m[1]}.25 MB\n    Average Memory :    {m[2]}.00 MB\n'
                f'    Total Requested Memory :   {m[3]}.00 MB\n    Delta Memory :   {m[4]}.00 MB\n')
            text = text.replace('CPU time :   12.5 sec.\n', '')
            (d / f'out_{name}_{start.year}-11-20T10-00-0{k}.out').write_text(text)
            want[name] = (start, dur, m)
        df = c.target(BS + ':BsubInterface')().getResourceUsageTable(d)
        c.ensure('one row per job', sorted(df['fisher']) == sorted(want))
        for _, r in df.iterrows():
            start, dur, m = want[r['fisher']]
            c.ensure('times', r['start_time'] == start and r['duration_s'] == dur and r['end_time'] == start + datetime.timedelta(seconds=dur))
            c.ensure('resources', [r[x] for x in ('cpu_time_s', 'max_mem_MB', 'avg_mem_MB', 'req_mem_MB', 'delta_mem_MB')] == [m[0] + .5, m[1] + .25, m[2], m[3], m[4]])


# ---- forecast ------------------------------------------------------------------------------------------------------------------

def arguments(d, **kw):
    a = dict(run_id=None, forecast_config=str(d / 'src' / 'forecast.json'), input_data_dir=str(d / 'data'), execution='interactive', queue='long', memory=2048,
             n_cores_per_job=2, verbose=False, test=False, overwrite_results=False)
    for t in TASKS:
        a.update({t.lower(): False, t.lower() + '_config': str(d / 'src' / f'{t}.json'), t.lower() + '_dir': None})
    a.update(kw)
    return a


def sources(d):
    (d / 'src').mkdir()
    (d / 'data').mkdir()
    for t in TASKS + ['forecast']:
        (d / 'src' / f'{t}.json').write_text(json.dumps({'task': t}))


def stand_in_configuration(c, name='the_config_id'):
    made = []

    def config(input_file=None, input_data_dir=None):
        f = ns(file=input_file, data=input_data_dir, phys_pars=ns(writeJSON=lambda p: Path(p).write_text('{}'), loaded=False), getConfigID=lambda: name, n_sp_bins=4,
               probe_configs={'WL': 1}, scenario='optimistic')
        f.loadPhysicalParametersFromJSONConfig = lambda: setattr(f.phys_pars, 'loaded', True)
        made.append(f)
        return f
    c.stub(TR + ':fcfg.ForecastConfig', config)
    return made


@contract('P25', [TR + '.ForecastRunner.doForecast', TR + '.ForecastRunner.__init__', TR + '.ForecastRunner.readCmdLineArgs', TR + '.ForecastRunner.loadForecastConfiguration',
                  TR + '.ForecastRunner.setRunID', TR + '.ForecastRunner.buildTasks', TR + '.ForecastRunner.createSingleTask', TR + '.ForecastRunner.prepareWorkspace',
                  TR + '.ForecastRunner.createRundir', TR + '.ForecastRunner.createInputFilesDir', TR + '.ForecastRunner.buildTaskRunners',
                  TR + '.ForecastRunner.populateInitialMetadata', TR + '.ForecastRunner.writeRunMetadata', TR + '.ForecastRunner.addTimingDataToMetadata',
                  CL + '.JobSubmitterCommandLineArgs.castArgTypes', CL + '.JobSubmitterCommandLineArgs.__init__', CL + '.GenericCommandLineArgs.readArgs'],
          mode='bounded', trials=80, bound='every subset of tasks present or linked; new, test and existing run directories')
def tasks_of_a_forecast(c):
    """a forecast builds the jobs of exactly the tasks asked for, each with its own configuration file and the parameters of the forecast, in
    a run directory named after it; the others use the given directories; what it used is recorded before and after running"""
    where = c.choice('run', ['new', 'test', 'existing'])
    present = {t: c.choice(t, [True, False]) for t in TASKS}
    rid, cid = c.choice('id', [None, 'mine']), c.choice('configuration id', ['conf', None])
    with scratch() as d:
        sources(d)
        old = d / 'old'
        kw = {'run_id': rid, 'test': where == 'test'}
        linked = {}
        for t in TASKS:
            kw[t.lower()] = present[t]
            if c.choice(t + ' directory', [True, False]):
                (old / t).mkdir(parents=True)
                kw[t.lower() + '_dir'] = str(old / t)
                if not present[t]:
                    linked[t] = old / t
        old.mkdir(exist_ok=True)
        (old / 'delta_cls.h5').write_text('')
        made = stand_in_configuration(c, cid)
        built = []

        def task(name):
            def make(workspace=None, args=None, json_input=None, forecast_config=None):
                c.ensure('inputs of the task', Path(json_input) == d / 'src' / f'{name}.json' and forecast_config is made[-1])
                return ns(createJobDirStructure=lambda: built.append((name, workspace.run_dir)), run=lambda: None)
            return make
        for t in TASKS:
            c.stub(TR + f':{t}TaskRunner', task(t))
        c.stub(TR + ':gu.get_execution_host', lambda: ['host', 'linux'])
        work = d / 'work'
        work.mkdir()
        V = c.target(TR + ':VERSION')
        name = f'{rid}_{V}' if rid else f'{cid}_{V}' if cid else f'run_seyfert_{V}'
        run = None
        if where == 'existing':
            run = d / 'there'
            run.mkdir()
            W = c.target(WS + ':WorkSpace')
            W(run).createInputFilesDir({t: d / 'src' / f'{t}.json' for t in ['forecast'] + TASKS}, ns(writeJSON=lambda p: Path(p).write_text('{}')), d / 'data')
            (run / 'results').write_text('kept')
        elif where == 'test' and c.choice('previous test', [True, False]):
            (work / name).mkdir()
            (work / name / 'stale').write_text('')
            (work / 'other').mkdir()
        R = c.target(TR + ':ForecastRunner')
        r = R(cmd_line_args=arguments(d, **kw), workdir=work, rundir=run)
        meta = []

        def go():
            r.start_datetime = datetime.datetime(2026, 1, 1, 10, 0, 0)
            r.end_datetime = r.start_datetime + datetime.timedelta(seconds=dur)
            meta.append(json.loads(r.workspace.metadata_file.read_text()))
        dur = c.choice('duration', [1, 3600, 90061])
        r.run = go
        r.doForecast()
        rd = r.workspace.run_dir
        made_dirs = [x for x in work.iterdir() if x.name != 'other']
        if where == 'existing':
            c.ensure('the given directory', rd == run and made_dirs == [] and (run / 'results').read_text() == 'kept')
        else:
            c.ensure('one new directory', [rd] == made_dirs and (rd.name == name if where == 'test' else rd.name.startswith(name + '_2')))
            c.ensure('nothing of the last test', not (rd / 'stale').exists())
        c.ensure('configuration', len(made) == 1 and Path(made[0].file) == (d / 'src' / 'forecast.json' if run is None else run / 'input_files_dir' / 'forecast.json')
                 and made[0].data == d / 'data' and made[0].phys_pars.loaded)
        c.ensure('tasks', built == [(t, rd) for t in TASKS if present[t]] and list(r.submitters_dict) == [t for t in TASKS if present[t]])
        for t in TASKS:
            p = rd / t
            c.ensure('linked', (p.is_symlink() and p.resolve() == linked[t]) if t in linked else not p.exists())
            c.ensure('copied configuration', json.loads(r.workspace.getTaskJSONPath(t).read_text()) == {'task': t})
        last = json.loads((rd / 'run_metadata.json').read_text())
        c.ensure('written before running', len(meta) == 1 and meta[0]['external_dirs'] == {t: str(p) for t, p in linked.items()} and meta[0]['code_version'] == V)
        c.ensure('the run', run is not None or meta[0]['run_id'] == name)
        c.ensure('times', {k: v for k, v in last.items() if k in meta[0]} == meta[0] and last['start_time'] == '2026-01-01T10:00:00')
        h, m, s = dur // 3600, dur // 60 % 60, dur % 60
        c.ensure('duration', last['duration'].startswith(f'{h}h {m}m {s}s'))


@contract('P25', [TR + '.ForecastRunner.loadForecastConfiguration'], weight=1)
def configuration_missing(c):
    """a forecast without a configuration file is refused before anything is made"""
    with scratch() as d:
        sources(d)
        stand_in_configuration(c)
        what = c.choice('file', ['none', 'absent', 'directory'])
        r = c.target(TR + ':ForecastRunner')(cmd_line_args=arguments(d, forecast_config=None if what == 'none' else str(d / 'nothing.json') if what == 'absent' else str(d)), workdir=d)
        before = sorted(d.iterdir())
        c.raises('refused', (TypeError, FileNotFoundError), r.doForecast)
        c.ensure('nothing made', sorted(d.iterdir()) == before)


@contract('P25', [TR + '.ForecastRunner.run', TR + '.ForecastRunner.computeDensities', TR + '.ForecastRunner.computeDeltaCls', TR + '.ForecastRunner.cl_task',
                  TR + '.ForecastRunner.deriv_task', TR + '.ForecastRunner.fisher_task'], weight=1)
def order_of_a_forecast(c):
    """exactly the tasks asked for run, power spectra, spectra, derivatives and Fisher matrices in this order, densities before and covariance
    right after the spectra, final results at the end; the densities are on the redshifts of the power spectra used"""
    ex = c.choice('execution', ['interactive', 'batch', 'no'])
    present = {t: c.choice(t, [True, False]) for t in TASKS}
    log = []
    step = lambda *x: lambda *a, **k: log.append(x if len(x) > 1 else x[0])
    with scratch() as d:
        stand_in_configuration(c)
        r = c.target(TR + ':ForecastRunner')(cmd_line_args=arguments(d, execution=ex))
        r.forecast_config = ns(probe_configs='the probes')
        r.workspace = ns(niz_file='niz', delta_cls_file='dcl', getTaskJSONConfiguration=lambda t: ns(z_grid=('grid of', t)),
                         getPowerSpectrumFile=lambda dvar=None, step=None: ('file', dvar, step))
        r.tasks = {t: ns(is_present=present[t]) for t in TASKS}
        r.submitters_dict = {t: ns(run=step(t)) for t in TASKS if present[t]}
        r.evaluateFinalResults = step('results')
        c.stub(TR + ':Cosmology.fromHDF5', lambda f: ns(z_grid=('grid in', f)))
        grids, saved = [], []

        def densities(probe_configs=None, z_grid=None):
            grids.append((probe_configs, z_grid))
            log.append('densities')
            return {p: ns(saveToHDF5=lambda f, root=None, p=p: saved.append((p, f, root))) for p in ('WL', 'GCph')}
        c.stub(TR + ':cl_core.compute_densities', densities)
        c.stub(TR + ':cl_core.compute_delta_cls', lambda ws, **k: log.append('covariance') or ns(saveToHDF5=lambda f: saved.append(('cov', ws is r.workspace, f))))
        r.bsub = ns(setOptions=lambda **k: None)
        r.run()
    both = present['PowerSpectrum'] and present['Angular']
    dens = present['Angular'] and not (both and ex == 'no')
    want = ['densities'] if dens else []
    for t in TASKS:
        if present[t]:
            want.append(t)
            if t == 'Angular' and ex != 'no':
                want.append('covariance')
    if present['Fisher'] and ex != 'no':
        want.append('results')
    c.ensure('order', log == want)
    c.ensure('grid', grids == ([('the probes', ('grid of', 'PowerSpectrum') if both else ('grid in', ('file', 'central', 0)))] if dens else []))
    c.ensure('stored', saved == ([('WL', 'niz', 'WL'), ('GCph', 'niz', 'GCph')] if dens else []) + ([('cov', True, 'dcl')] if 'covariance' in want else []))
    c.ensure('times', r.end_datetime >= r.start_datetime)


@contract('P25', [TR + '.ForecastRunner.evaluateFinalResults', TR + '.ForecastRunner.writeGCspPkFishersTo'], weight=1)
def results_of_a_forecast(c):
    """final results are computed for this run in the same way of execution; old ones are removed only when asked for; a failure is reported"""
    ex, over, old = c.choice('execution', ['interactive', 'batch']), c.choice('overwrite', [True, False]), c.choice('old', [True, False])
    fails = c.choice('fails', [False, True])
    scenario = c.choice('scenario', ['optimistic', 'pessimistic'])
    with scratch() as d:
        r = c.target(TR + ':ForecastRunner')(cmd_line_args=arguments(d, execution=ex, overwrite_results=over), rundir=d)
        r.workspace = c.target(WS + ':WorkSpace')(d)
        r.forecast_config = ns(scenario=scenario)
        if old:
            r.workspace.final_results_dir.mkdir()
        (d / 'base_fishers').mkdir()
        log, wrote = [], []
        c.stub(TR + ':fsu.get_ist_gcsp_pk_fisher_file', lambda scenario=None, cosmology=None: ('file', scenario, cosmology))
        c.stub(TR + ':FisherMatrix.from_ISTfile', lambda file=None: ns(writeToFile=lambda outfile=None: wrote.append((file, Path(outfile)))))

        def run(cmd, **kw):
            log.append((cmd, r.workspace.final_results_dir.exists(), len(wrote)))
            return ns(returncode=int(fails), stderr=None, stdout=None)
        c.stub(TR + ':sp.run', run)
        e = attempt(r.evaluateFinalResults, Exception)
        c.ensure('failure reported', (e is not None) == fails)
    c.ensure('old results', len(log) == 1 and log[0][1] == (old and not over))
    c.ensure('spectroscopic matrix of the scenario first', log[0][2] == 1 and wrote == [(('file', scenario, 'w0_wa_CDM'), d / 'base_fishers' / 'fisher_IST_gcsp_pk_w0_wa_CDM.hdf5')])
    w = log[0][0].split()
    o = dict(zip(w[1::2], w[2::2]))
    c.ensure('command', w[0] == 'evaluate_final_results' and o['-ex'] == ex and o['-i'] == str(d) and o['-ow'] == str(over) and o['-wd'] == str(d))


# ---- forecast in one process ---------------------------------------------------------------------------------------------------

@contract('P25', [SC + '.prepare_workspace', 'seyfert.seyfert.Seyfert.prepareWorkspace', 'seyfert.seyfert.Seyfert.__init__'], mode='bounded', trials=60,
          bound='both entry points, every subset of given files and directories')
def workspace_of_a_forecast(c):
    """a new run uses the configuration files it is given and the default ones for the others, keeps copies of them and links the given
    directories"""
    entry = c.choice('entry', ['function', 'class'])
    M = SC if entry == 'function' else 'seyfert.seyfert'
    with scratch() as d:
        sources(d)
        cfg, made = d / 'defaults', []
        cfg.mkdir()
        default = dict(forecast='basic_forecast_config.json', PowerSpectrum='power_spectrum_config.json', Angular='angular_config.json', Derivative='derivative_config.json',
                       Fisher='fisher_config.json')
        for t, f in default.items():
            (cfg / f).write_text(json.dumps({'default': t}))
        c.stub(M + ':fsu.config_files_dir', lambda: cfg)
        c.stub(M + ':fsu.default_data_dir', lambda: d / 'defaults')

        def config(input_file=None, input_data_dir=None):
            f = ns(text=json.loads(Path(input_file).read_text()), data=input_data_dir, phys_pars=ns(writeJSON=lambda p: Path(p).write_text('{"p": 1}')))
            f.loadPhysicalParametersFromJSONConfig = lambda: made.append(f)
            return f
        c.stub(M + ':ForecastConfig', config)
        run = d / 'a' / 'run'
        a, given = {'workdir': run}, {}
        for t, k in dict(forecast='forecast_config', PowerSpectrum='powerspectrum_config', Angular='angular_config', Derivative='derivative_config', Fisher='fisher_config').items():
            given[t] = c.choice(t, [True, False])
            if given[t]:
                a[k] = d / 'src' / f'{t}.json'
        data = c.choice('data', [True, False])
        if data:
            a['input_data_dir'] = d / 'data'
        links = {}
        for t in TASKS[:3]:
            w = c.choice(t + ' directory', ['given', 'none', 'absent'])
            if w == 'given':
                (d / 'old' / t).mkdir(parents=True)
                links[t] = d / 'old' / t
            if w != 'absent':
                a[t.lower() + '_dir'] = links.get(t)
        if entry == 'function':
            f, ws = c.target(SC + ':prepare_workspace')(a)
        else:
            s = c.target('seyfert.seyfert:Seyfert')(a)
            c.stub(WS + ':mcfg.config_for_task', lambda name, f: (name, json.loads(Path(f).read_text())))
            s.prepareWorkspace()
            f, ws = s.fcfg, s.ws
        text = {t: {'task': t} if given[t] else {'default': t} for t in given}
        c.ensure('forecast', f.text == text['forecast'] and f.data == (d / 'data' if data else cfg) and made == [f])
        c.ensure('run', ws.run_dir == run)
        for t in TASKS:
            c.ensure('configuration', json.loads(ws.getTaskJSONPath(t).read_text()) == text[t])
            p = run / t
            c.ensure('directories', p.resolve() == links[t] if t in links else not p.is_symlink())
        c.ensure('forecast and parameters kept', json.loads(ws.getForecastConfigFilePath().read_text()) == text['forecast'] and json.loads(ws.getParamsJSONFile().read_text()) == {'p': 1}
                 and ws.getInputDataDirPath() == (d / 'data' if data else cfg))
        if entry == 'class':
            c.ensure('configurations', [s.pmm_cfg, s.cl_cfg, s.der_cfg, s.fish_cfg] == [(t, text[t]) for t in TASKS] and s.phys_pars is f.phys_pars)


@contract('P25', [SC + '.compute_densities', SC + '.compute_fiducial_cls', 'seyfert.seyfert.Seyfert.evaluateRedshiftDensities'], weight=1)
def stored_densities_and_spectra(c):
    """densities and fiducial spectra are computed once, for every probe on the redshifts of the forecast, stored, and read from the run
    when they are there"""
    stored, what = c.choice('stored', [True, False]), c.choice('what', ['densities', 'densities of the class', 'spectra'])
    log = []
    with scratch() as d:
        ws = c.target(WS + ':WorkSpace')(d)
        M = 'seyfert.seyfert' if 'class' in what else SC
        fcfg, cosmo = ns(probe_configs={p: ns(density_init_file='file of ' + p) for p in ('WL', 'GCph')}), ns(z_grid='grid')

        def density(file):
            me = ns(file=file, steps=[])
            me.setUp = lambda: me.steps.append('setUp')
            me.evaluate = lambda z_grid=None: me.steps.append(z_grid)
            me.evaluateSurfaceDensity = lambda: me.steps.append('surface')
            return me
        c.stub(M + ':redshift_density.RedshiftDensity.fromHDF5', density)
        c.stub(M + ':redshift_density.save_densities_to_file', lambda densities=None, file=None: log.append((densities, file)))
        c.stub(M + ':redshift_density.load_densities_from_file', lambda file=None: ('stored in', file))
        if what != 'spectra':
            if stored:
                ws.niz_file.write_text('')
            if M == SC:
                r = c.target(SC + ':compute_densities')(ws, fcfg, cosmo)
            else:
                s = c.target(M + ':Seyfert')()
                s.ws, s.fcfg, s.pmm_cfg = ws, fcfg, cosmo
                s.evaluateRedshiftDensities()
                r = s.redshift_densities
            if stored:
                c.ensure('read', r == ('stored in', ws.niz_file) and log == [])
            else:
                c.ensure('every probe', {p: (x.file, x.steps) for p, x in r.items()} == {p: ('file of ' + p, ['setUp', 'grid', 'surface']) for p in ('WL', 'GCph')})
                c.ensure('written', len(log) == 1 and log[0][0] is r and log[0][1] == ws.niz_file)
            return
        f = ws.cl_dir / 'dvar_central_step_0' / 'cls_fiducial.h5'
        if stored:
            f.parent.mkdir(parents=True)
            f.write_text('')
        parts = {k: object() for k in ('cosmology', 'phys_pars', 'densities', 'forecast_config', 'angular_config')}

        def compute(**kw):
            c.ensure('inputs', set(kw) == set(parts) and all(kw[k] is parts[k] for k in kw))
            return new
        new = ns(saveToHDF5=lambda file: log.append((Path(file), Path(file).parent.is_dir())))
        c.stub(SC + ':cl_core.compute_cls', compute)
        c.stub(SC + ':c_ells.AngularCoefficientsCollector.fromHDF5', lambda file: ('stored in', Path(file)))
        r = c.target(SC + ':compute_fiducial_cls')(ws, parts['forecast_config'], {'Angular': parts['angular_config'], 'Fisher': 0}, parts['phys_pars'], parts['cosmology'], parts['densities'])
        c.ensure('spectra', (r == ('stored in', f) and log == []) if stored else (r is new and log == [(f, True)]))


class Marked(dict):
    """a picklable stand-in of derivatives"""


@contract('P25', [SC + '.compute_cl_derivatives', SC + '.compute_fishers'], weight=1)
def stored_derivatives_and_matrices(c):
    """the derivative by every free parameter is computed once from the inputs of this run and stored; the Fisher matrices are those of
    the single tracers and of every selected data vector"""
    names = c.choice('parameters', [['h'], ['wa', 'h', 'bgph1']])
    with scratch() as d:
        ws = c.target(WS + ':WorkSpace')(d)
        pp = ns(free_physical_parameters={x: 0 for x in names})
        keys = ['fid_cls', 'densities', 'forecast_config', 'angular_config', 'fiducial_cosmology']
        parts = {k: object() for k in keys}
        calls = []

        def derivative(dvar, **kw):
            c.ensure('inputs', kw.pop('ws') is ws and kw.pop('phys_pars') is pp and set(kw) == set(parts) and all(kw[k] is parts[k] for k in kw))
            calls.append(dvar)
            return Marked(of=dvar)
        c.stub(SC + ':cl_derivative_core.compute_cls_derivatives_wrt', derivative)
        c.stub(SC + ':formatters.string_time_format', lambda t: '')
        f = c.target(SC + ':compute_cl_derivatives')
        a = (ws, parts['forecast_config'], {'Angular': parts['angular_config']}, pp, parts['fiducial_cosmology'], parts['densities'], parts['fid_cls'])
        r = f(*a)
        c.ensure('every parameter', calls == names and {k: v['of'] for k, v in r.items()} == {x: x for x in names})
        again = f(*a)
        c.ensure('stored', calls == names and {k: v['of'] for k, v in again.items()} == {x: x for x in names})
        done, wrote = [], []
        dcl = object()

        def fishers(brief_str_data_vectors, outdir, ws, phys_pars, delta_cls, dcoll_dvar_dict):
            c.ensure('of this run', outdir == ws.base_fishers_dir and outdir.is_dir() and phys_pars is pp and delta_cls is dcl and dcoll_dvar_dict is r)
            done.append(list(brief_str_data_vectors))
            return [('fisher', v) for v in brief_str_data_vectors]
        c.stub(SC + ':fisher_core.compute_and_save_fishers', fishers)
        c.stub(SC + ':load_selected_data_vectors', lambda *x: [ns(toBriefString=lambda v=v: v) for v in VECTORS])
        c.stub(SC + ':fsu.get_ist_gcsp_pk_fisher_file', lambda s, *x: ('file', s))
        c.stub(SC + ':FisherMatrix.from_ISTfile', lambda f: ns(writeToFile=lambda outfile=None: wrote.append((f, Path(outfile)))))
        out = c.target(SC + ':compute_fishers')(ws=ws, fcfg=ns(scenario='pessimistic'), phys_pars=pp, delta_cls=dcl, ders_dict=r)
        c.ensure('single tracers first, then every vector', done == [['phph', 'spsp', 'wlwl'], VECTORS])
        c.ensure('all returned', out == [('fisher', v) for v in done[0] + done[1]])
        c.ensure('spectroscopic matrix of the scenario', wrote == [(('file', 'pessimistic'), ws.base_fishers_dir / 'fisher_IST_gcsp_pk.hdf5')])


@contract('P25', [SC + '.do_forecast'], weight=1)
def forecast_in_one_process(c):
    """every stage uses what the previous ones of the same run computed; a stored covariance is read, a computed one is stored"""
    stored = c.choice('stored', [True, False])
    with scratch() as d:
        ws = c.target(WS + ':WorkSpace')(d)
        if stored:
            ws.delta_cls_file.write_text('')
        log = tempfile.mkstemp(dir=d)[1]
        Path(log).write_text('what happened')
        fc, cfgs = ns(phys_pars=object()), object()
        ws.getTasksJSONConfigs = lambda: cfgs
        order = []
        cosmo = ns(evaluateOverRedshiftGrid=lambda: order.append('grid'))
        c.stub(SC + ':prepare_workspace', lambda a: (c.ensure('arguments', a == {'the': 'arguments'}), (fc, ws))[1])
        c.stub(SC + ':cosmology.Cosmology.fromHDF5', lambda f: (c.ensure('fiducial cosmology', Path(f) == ws.pmm_dir / 'dvar_central_step_0' / 'p_mm.h5'), cosmo)[1])

        def stage(name, want, out):
            def f(*a, **k):
                import inspect
                got = list(a) + list(k.values())
                c.ensure('inputs of ' + name, len(got) == len(want) and all(any(x is w for x in got) for w in want))
                order.append(name)
                return out
            return f
        dens, cls, ders, cov = object(), object(), object(), ns(saveToHDF5=lambda f: order.append(('stored', f)))
        c.stub(SC + ':compute_densities', stage('densities', [ws, fc, cosmo], dens))
        c.stub(SC + ':compute_fiducial_cls', stage('spectra', [ws, fc, cfgs, fc.phys_pars, cosmo, dens], cls))
        c.stub(SC + ':compute_cl_derivatives', stage('derivatives', [ws, fc, cfgs, fc.phys_pars, cosmo, dens, cls], ders))
        c.stub(SC + ':cl_core.DeltaClCollection.fromHDF5', lambda f: (c.ensure('stored covariance', Path(f) == ws.delta_cls_file), order.append('read'), cov)[2])
        c.stub(SC + ':cl_core.compute_delta_cls', stage('covariance', [ws], cov))
        c.stub(SC + ':compute_fishers', stage('matrices', [ws, fc, fc.phys_pars, cov, ders], None))

        def results(rundir=None, outdir_name=None, **k):
            c.ensure('results of the run', rundir == d and outdir_name == 'final_results')
            order.append('results')
        c.stub(SC + ':create_final_results', results)
        run = ws.run_dir
        (d / 'sub').mkdir()
        moved = Path(log).rename(d / 'sub' / 'x.log')
        c.target(SC + ':do_forecast')({'the': 'arguments'}, moved)
        c.ensure('order', order == ['grid', 'densities', 'spectra', 'derivatives'] + (['read'] if stored else ['covariance', ('stored', ws.delta_cls_file)]) + ['matrices', 'results'])
        c.ensure('log kept', (run / 'x.log').read_text() == 'what happened')


@contract('P25', [SC + '.execute_interactively', SC + '.submit_batch_jobs', SC + '.get_interactive_run_command', SC + '.compute_bsub_options'], weight=1)
def several_forecasts(c):
    """every forecast configuration is run or submitted once, in its own directory and with all the arguments given; many bins get at
    least the memory they need"""
    ex, inside = c.choice('execution', ['interactive', 'batch']), c.choice('batch job', [False, True])
    n = c.choice('configurations', [1, 3]) if not inside else 1
    bins = c.choice('bins', [4, 24, 25, 40])
    mem = c.int('memory', 1, 10 ** 6)
    with scratch() as d:
        files = [d / f'conf{k}.json' for k in range(n)]
        a = dict(workdir=d / 'w', memory=mem, queue='medium', n_cores_per_job=2, is_batch_job=inside, test_batch=False, execution=ex, angular_dir=d / 'cls', derivative_dir=None)
        ran = []
        if ex == 'interactive':
            c.stub(SC + ':do_forecast', lambda args, log: ran.append((dict(args), log)))
            c.target(SC + ':execute_interactively')(a, files, 'the log')
            c.ensure('each once', [x['forecast_config'] for x, _ in ran] == files and all(l == 'the log' for _, l in ran))
            dirs = [Path(x['workdir']) for x, _ in ran]
            c.ensure('arguments', all({k: v for k, v in x.items() if k not in ('forecast_config', 'workdir')} == {k: v for k, v in a.items() if k != 'workdir'} for x, _ in ran))
            c.ensure('own directory', dirs == [d / 'w'] if inside else (len(set(dirs)) == n and all(p.parent == d / 'w' and f.stem in p.name for p, f in zip(dirs, files))))
            c.ensure('there', all(p.is_dir() for p in dirs))
            return
        if inside:
            return
        opts = []
        b = ns(setOptions=lambda **k: opts.append(k), submitJob=lambda **k: ran.append(k))
        c.stub(SC + ':BsubInterface', lambda: b)
        c.stub(SC + ':time.sleep', lambda s: None)
        c.stub(SC + ':fsu.default_seyfert_input_data_dir', lambda: d)
        c.stub(SC + ':ForecastConfig', lambda input_file=None, input_data_dir=None: ns(n_sp_bins=bins, getConfigID=lambda: 'the id'))
        if c.sym:
            a['memory'] = mem
            c.patch(SC + ':get_interactive_run_command', lambda x: x)
        c.target(SC + ':submit_batch_jobs')(a, files)
        c.ensure('each once', len(ran) == n == len(opts))
        for k, (o, x) in enumerate(zip(opts, ran)):
            c.ensure('options', o['queue'] == 'medium' and o['n_cores'] == 2)
            c.ensure('memory', c.eq(o['memory_MB'], c.ite(c.and_(bins > 24, mem < 10000), 10000, mem)))
            cmd = x['cmd_to_execute']
            if c.sym:
                got = {**{k_: str(v) for k_, v in cmd.items() if k_ != 'memory' and v is not None}}
                c.ensure('memory passed on', c.eq(cmd['memory'], mem))
            else:
                w = cmd.split()
                got = {k_[2:]: v for k_, v in zip(w[1::2], w[2::2])}
                c.ensure('program', w[0] == 'run_seyfert' and got.pop('memory') == str(mem) and got['execution'] == 'interactive')
            c.ensure('arguments', got['forecast_config'] == str(files[k]) and got['is_batch_job'] == 'True' and got['angular_dir'] == str(d / 'cls') and got['queue'] == 'medium')
            c.ensure('nothing that was not given', 'derivative_dir' not in got)
            p = Path(got['workdir'])
            c.ensure('own directory', p.parent == d / 'w' and files[k].stem in p.name and p.is_dir() and Path(x['logs_path']).parent == p)
