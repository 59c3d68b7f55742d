#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough]      decide one property on /repo's current tree
   check.py --replay <replay file>                      re-run a recorded violation against the real code

For every contract of the property:
  1. the verifier (pyver) executes the instrumented text of /repo symbolically and discharges every obligation with z3;
  2. a refuted obligation is replayed: the solver's counter-model is turned into concrete inputs for the untouched code;
  3. the same contract is evaluated at run time on seeded random inputs (bounded; the only layer for contracts labelled
     bounded, and the stand-in when the verifier cannot digest changed source).
exit 0: held on everything explored; exit 1: violation."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVER_REPO', '/repo')
for k, v in dict(MPLBACKEND='Agg', QT_QPA_PLATFORM='offscreen', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                 MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
                 NUMBA_DISABLE_JIT='1').items():
    os.environ[k] = v
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, REPO]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(6000)

import argparse
import importlib
import json
import logging
import multiprocessing as mp
import resource
import shutil
import signal
import tempfile
import time
import warnings

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)


def load_contracts(prop=None):
    from pyver import api
    for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
        if f.endswith('.py') and f[0].lower() == 'p' and (prop is None or f.lower().startswith(prop.lower() + '_')):
            importlib.import_module('contracts.' + f[:-3])
    return [c for c in api.REGISTRY if prop is None or c.prop == prop]


def job_symbolic(c, budget):
    from pyver import api
    return api.run_symbolic(c, budget)


def job_concrete(c, seed, trials, budget):
    from pyver import api
    return api.run_concrete(c, seed, trials, budget)


def job_replay(c, model, seed):
    """the solver's counter-model on the real code: all inputs of the model, then its scalars with random arrays"""
    from pyver import api
    tried = []
    if model:
        scal = {k: v for k, v in model.items() if not isinstance(v, list) and v is not None}
        full = {k: v for k, v in model.items() if v is not None}
        plans = [full] + [scal] * 6
        # scalars of the model may be too large for a concrete run
        if all(not isinstance(v, (int, float)) or abs(v) < 4000 for v in scal.values()):
            for t, script in enumerate(plans):
                r = api.run_concrete(c, seed * 1000 + t, 1, 60, script=script)
                tried.append(r)
                if r['status'] == 'failed':
                    r['script'] = script
                    return r
    r = api.run_concrete(c, seed + 77, max(200, 3 * c.trials), 60)
    return r


def _child(q, fn, args, mem_gb, work):
    try:
        os.setsid()
    except OSError:
        pass
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    except (ValueError, OSError):
        pass
    os.chdir(work)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('PV_DEBUG'):
        os.dup2(devnull, 2)
    try:
        r = fn(*args)
    except MemoryError:
        r = dict(status='undecided', reason='memory limit')
    except BaseException as e:                                            # noqa
        import traceback
        r = dict(status='undecided', reason=f"job: {type(e).__name__}: {e}", trace=traceback.format_exc()[-1500:])
    with open(q + '.tmp', 'w') as f:
        json.dump(r, f, default=str)
    os.rename(q + '.tmp', q)
    os._exit(0)


class Pool:
    """forked jobs, at most n at a time, each with its own hard time limit"""

    def __init__(self, n, scratch):
        self.n, self.scratch, self.run, self.wait, self.k = n, scratch, [], [], 0

    def add(self, key, fn, args, limit, then):
        self.wait.append((key, fn, args, limit, then))

    def loop(self):
        ctx = mp.get_context('fork')
        while self.wait or self.run:
            while self.wait and len(self.run) < self.n:
                key, fn, args, limit, then = self.wait.pop(0)
                self.k += 1
                q = os.path.join(self.scratch, f"r{self.k}.json")
                w = os.path.join(self.scratch, f"w{self.k}")
                os.makedirs(w)
                p = ctx.Process(target=_child, args=(q, fn, args, 8, w))
                p.start()
                self.run.append((p, q, time.time() + limit, key, then))
            time.sleep(0.02)
            for item in list(self.run):
                p, q, end, key, then = item
                if os.path.exists(q):
                    p.join(5)
                    r = json.load(open(q))
                elif not p.is_alive():
                    r = dict(status='undecided', reason=f"job died ({p.exitcode})")
                elif time.time() > end:
                    r = dict(status='undecided', reason='hard time limit')
                else:
                    continue
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                p.join(5)
                self.run.remove(item)
                then(key, r)


def git_head():
    try:
        import subprocess
        return subprocess.run(['git', '-C', REPO, 'rev-parse', '--short', 'HEAD'], capture_output=True, text=True,
                              timeout=10).stdout.strip()
    except Exception:
        return '?'


def known_findings(prop):
    p = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--only')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = a.tier == 'thorough'
    contracts = load_contracts(prop)
    if a.only:
        contracts = [c for c in contracts if a.only in c.name]
    if not contracts:
        print(f"no contracts for {prop}")
        return 2
    import z3                                                            # noqa  (loaded before forking)
    try:
        import numpy, scipy.interpolate, scipy.integrate, pandas, h5py   # noqa
        import seyfert                                                    # noqa
    except Exception as e:                                               # noqa
        print(f"warning: importing the real package failed: {type(e).__name__}: {e}")
    sym, conc, rep = {}, {}, {}
    scratch = tempfile.mkdtemp(prefix='pyver-')
    try:
        pool = Pool(8, scratch)
        sb = 700 if thorough else 150
        cb = 240 if thorough else 20
        by = {c.name: c for c in contracts}

        def got_sym(key, r):
            sym[key] = r
            if r['status'] != 'proved':
                # counter-model, then further random inputs, on the real code
                pool.add(key, job_replay, (by[key], r.get('model'), seed), 150, lambda k, x: rep.__setitem__(k, x))

        for c in sorted(contracts, key=lambda c: -c.weight):
            if c.mode != 'bounded':
                pool.add(c.name, job_symbolic, (c, sb), sb + 60, got_sym)
        for c in contracts:
            pool.add(c.name, job_concrete, (c, seed, c.trials * (20 if thorough else 1), cb * max(1, c.weight if c.mode == 'bounded' else 1)),
                     cb * 6 + 60, conc.__setitem__)
        pool.loop()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return report(prop, a.tier, seed, contracts, sym, conc, rep, t0)


def report(prop, tier, seed, contracts, sym, conc, rep, t0):
    replay_dir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    violations, notes, bounded = [], [], []
    obligations = discharged = 0
    functions, detail = {}, []
    kf = known_findings(prop)
    kf_seen = []
    for c in contracts:
        s, k, r = sym.get(c.name), conc.get(c.name), rep.get(c.name)
        d = dict(contract=c.name, statement=c.doc.strip(), functions=c.functions, mode=c.mode)
        if s is not None:
            ob = s.get('obligations', {})
            d['proof'] = dict(status=s['status'], reason=s.get('reason'), obligations={n: v for n, v in ob.items()},
                              paths=s.get('paths'), solver_queries=s.get('queries'), trace=s.get('trace'),
                              solver_time_s=round(s.get('solver_time', 0), 2), wall_s=round(s.get('wall', 0), 1))
            tot = sum(v[0] for v in ob.values())
            if s['status'] == 'proved':
                obligations += tot
                discharged += tot
            else:
                obligations += max(tot, sum(v[1] for v in ob.values()) + 1)
                discharged += sum(v[1] for v in ob.values())
        proved = s is not None and s['status'] == 'proved'
        if k is not None:
            d['runtime'] = {x: k.get(x) for x in ('status', 'trials', 'skipped', 'checks', 'failed', 'detail', 'reason', 'trace')
                            if k.get(x) is not None}
        for fn in c.functions:
            functions.setdefault(fn, set()).add('proved' if proved else 'bounded')
        if not proved:
            bounded.append(dict(contract=c.name, why=(s or {}).get('reason') or c.bound or 'run-time evaluation only',
                                bound=c.bound or f"{(k or {}).get('trials', 0)} seeded random inputs"))
        fail = None
        if s is not None and r is not None and r.get('status') == 'failed':
            fail = ('replayed', s.get('failed') or r.get('failed'), r)
        elif k is not None and k.get('status') == 'failed':
            fail = ('runtime', k.get('failed'), k)
        elif s is not None and s['status'] == 'refuted' and not s.get('weak') and (k or {}).get('status') != 'harness-error' \
                and (r or {}).get('status') not in ('harness-error', 'anchor'):
            fail = ('proof-only', s.get('failed'), dict(model=s.get('model'), reason=s.get('reason'), trace=s.get('trace')))
        if fail is not None:
            known = [f for f in kf if f['contract'] == c.name and f['obligation'] == fail[1]
                     and (f.get('detail') is None or f['detail'] in str(fail[2].get('detail')))]
            if known:
                kf_seen.append(known[0])
            else:
                path = os.path.join(replay_dir, f"{prop}-{c.name}.json")
                with open(path, 'w') as f:
                    json.dump(dict(property=prop, contract=c.name, statement=c.doc.strip(), functions=c.functions,
                                   how=fail[0], failed_obligation=fail[1], solver=dict(
                                       status=(s or {}).get('status'), reason=(s or {}).get('reason'),
                                       model=(s or {}).get('model'), trace=(s or {}).get('trace')),
                                   failing=fail[2], seed=seed,
                                   rerun=f"{sys.executable} {HERE}/check.py --replay {path}"), f, indent=1, default=str)
                violations.append((c, fail, path))
        detail.append(d)
    wall = time.time() - t0
    for c, fail, path in violations:
        print(f"contract {c.name}: obligation '{fail[1]}' fails ({fail[0]}): {str(fail[2].get('detail') or fail[2].get('reason'))[:300]}")
        tail = ' no-failing-input-found' if fail[0] == 'proof-only' else ''
        print(f"VIOLATION property={prop} replay={path}{tail}")
    for f in kf_seen:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for d in detail:
        st = d.get('proof', {}).get('status', 'bounded')
        rt = d.get('runtime', {})
        print(f"  {d['contract']}: {st}" + (f" ({d['proof']['reason']})" if st not in ('proved', 'bounded') else '') +
              f"; run-time {rt.get('status')} x{rt.get('trials')}" + (f" {rt.get('reason') or ''}{rt.get('detail') or ''}" if rt.get('status') != 'ok' else ''))
    stime = sum(d.get('proof', {}).get('solver_time_s', 0) for d in detail)
    from pyver import trusted
    ev = dict(property=prop, tier=tier, seed=seed,
              level='proof' if discharged and obligations == discharged else 'other',
              coverage=dict(
                  proof=dict(obligations=obligations, discharged=discharged,
                             checker_cmd=f"{sys.executable} {HERE}/check.py {prop} --tier {tier}",
                             trusted_base=trusted.BASE),
                  contracts=detail,
                  functions_under_contract={f: ('proved' if v == {'proved'} else 'bounded' if v == {'bounded'} else
                                                'proved in part, bounded in part') for f, v in sorted(functions.items())},
                  back_end='z3 ' + _z3v(), solver_time_s=round(stime, 2),
                  bounded_parts=bounded, repo_head=git_head(),
                  runtime_checks=sum((d.get('runtime') or {}).get('checks') or 0 for d in detail)),
              assumptions=trusted.ASSUMPTIONS,
              wall_s=round(wall, 2),
              violations=[dict(contract=c.name, obligation=f[1], how=f[0], replay=p) for c, f, p in violations])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', f".{prop}.tmp")
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(tmp, os.path.join(HERE, 'evidence', f"{prop}.json"))
    print(f"{prop} [{tier}] obligations {discharged}/{obligations} discharged, {len(bounded)} contract(s) bounded, "
          f"solver {stime:.1f}s, wall {wall:.1f}s: {'VIOLATED' if violations else 'held'}")
    return 1 if violations else 0


def _z3v():
    import z3
    return z3.get_version_string()


def replay(path):
    rec = json.load(open(path))
    cs = [c for c in load_contracts(rec['property']) if c.name == rec['contract']]
    from pyver import api
    f = rec['failing']
    if 'script' in f or 'trial' not in f:
        r = api.run_concrete(cs[0], f.get('seed', rec['seed']), 1, 600, script=f.get('script') or rec['solver'].get('model') or {})
    else:
        r = api.run_concrete(cs[0], f['seed'], f['trial'] + 1, 600)
    print(json.dumps(r, indent=1, default=str))
    return 1 if r['status'] == 'failed' else 0


if __name__ == '__main__':
    sys.exit(main())
