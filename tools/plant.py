#!/opt/venv/bin/python
"""plant.py make ID PROPERTY FILE  < spec   -- helpers for writing and validating planted changes (never used by a check)
   plant.py validate ID...   runs build / stable tests / demo in a scratch copy, with and without the patch"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', QT_QPA_PLATFORM='offscreen', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', NUMBA_NUM_THREADS='1', PYTHONHASHSEED='0')
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen PYTHONHASHSEED=${PYTHONHASHSEED:-0}
exec /opt/venv/bin/python "$here/demo.py"
'''


def make(id, prop, edits, demo, needs, breaks):
    """edits: list of (file, old, new)"""
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='plantmk')
    out = ''
    try:
        seen = {}
        for f, old, new in edits:
            txt = seen.get(f) or open(os.path.join('/repo', f)).read()
            assert txt.count(old) == 1, (id, f, txt.count(old), old)
            seen[f] = txt.replace(old, new)
        for f, txt in seen.items():
            for side, t in (('a', open(os.path.join('/repo', f)).read()), ('b', txt)):
                p = os.path.join(tmp, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(t)
            r = subprocess.run(['git', 'diff', '--no-index', '--no-color', 'a/' + f, 'b/' + f], cwd=tmp, capture_output=True, text=True)
            out += r.stdout.replace('a/a/', 'a/').replace('b/b/', 'b/')
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, 'patch.diff'), 'w').write(out)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def run(cmd, cwd, env=None, t=600):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **(env or {})), capture_output=True, text=True, timeout=t)


def validate(id, tests=True):
    d = os.path.join(SEED, id)
    tmp = tempfile.mkdtemp(prefix='plant_' + id + '_')
    try:
        w = os.path.join(tmp, 'repo')
        run(['cp', '-a', '/repo', w], '/')
        r0 = run(['bash', os.path.join(d, 'demo.sh')], w)
        a = run(['git', 'apply', os.path.join(d, 'patch.diff')], w)
        if a.returncode:
            return id, 'patch does not apply ' + a.stderr
        r1 = run(['bash', os.path.join(d, 'demo.sh')], w)
        res = 'clean demo %d, patched demo %d' % (r0.returncode, r1.returncode)
        ok = r0.returncode == 0 and r1.returncode != 0
        if r0.returncode:
            res += '\n   ' + r0.stdout[-300:] + r0.stderr[-600:]
        if not ok:
            return id, 'BAD ' + res + '\n   ' + r1.stdout[-300:]
        if tests:
            t = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
                     '--basetemp=' + tmp + '/bt', '-o', 'junit_family=xunit2', '--junitxml=' + tmp + '/j.xml', 'tests'], w, {'PYTHONPATH': w}, 1200)
            run(['python3', '/opt/vp/results.py', tmp + '/o.json', 'junit:' + tmp + '/j.xml'], w)
            o = json.load(open(tmp + '/o.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            passed = set(o.get('passed', o.get('pass', [])))
            bl = base.get('passed') or base.get('tests') or base.get('stable') or []
            lost = [x for x in bl if x not in passed]
            res += ', stable tests lost: %d %s' % (len(lost), lost[:3])
            ok = ok and not lost
        return id, ('ok ' if ok else 'BAD ') + res
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    if sys.argv[1] == 'validate':
        ids = [a for a in sys.argv[2:] if not a.startswith('--')] or sorted(os.listdir(SEED))
        with ThreadPoolExecutor(5) as ex:
            for id, r in ex.map(lambda i: validate(i, '--notest' not in sys.argv), ids):
                print(id, r, flush=True)
    elif sys.argv[1] == 'make':
        exec(open(sys.argv[2]).read())
