"""regenerates the tables of DESIGN.md between its markers (run with /opt/venv/bin/python tools/design.py)"""
import glob, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pyver import api
for f in sorted(glob.glob(ROOT + '/contracts/p*.py')):
    importlib.import_module('contracts.' + os.path.basename(f)[:-3])
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
HOW = {}
exec(open(ROOT + '/tools/design_how.py').read())
cs = list(api.REGISTRY)


def mine(p):
    return [c for c in cs if p == c.prop]


rows = ['| id | property | contracts (proved / case-enumerated with a stated bound / run-time only) | functions under contract | how it is decided |', '|---|---|---|---|---|']
for p in sorted(props, key=lambda d: d['id']):
    k = mine(p['id'])
    full = [c for c in k if c.mode != 'bounded' and not c.bound]
    enum = [c for c in k if c.mode != 'bounded' and c.bound]
    bnd = [c for c in k if c.mode == 'bounded']
    fns = {f for c in k for f in c.functions}
    rows.append(f"| {p['id']} | {p['title']} | {len(full)} / {len(enum)} / {len(bnd)} | {len(fns)} | {HOW[p['id']]} |")
allf = {f for c in cs for f in c.functions}
rows.append('')
rows.append(f"Total: {len(cs)} contracts over {len(allf)} functions; {sum(c.mode != 'bounded' for c in cs)} of them produce proof obligations, "
            f"{sum(c.mode == 'bounded' for c in cs)} are run-time contracts on random inputs (labelled bounded, never counted as proved).")
rows.append('')
rows.append('Run-time-only contracts and their bounds:')
rows.append('')
for p in sorted({c.prop for c in cs}):
    b = [c for c in mine(p) if c.mode == 'bounded']
    if b:
        rows.append(f'* {p}: ' + '; '.join(f'`{c.name}` ({c.bound})' for c in b))
seeds = ['| planted change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
caught = json.load(open(ROOT + '/tools/caught.json')) if os.path.exists(ROOT + '/tools/caught.json') else {}
short = lambda s: ' '.join(str(s).split()).replace('|', '/')
for d in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open(f'{ROOT}/seeded/{d}/meta.json'))
    seeds.append(f"| {d} | {m['property']} | {short(m['what_it_breaks'])} | {short(m['needs'])} | {short(caught.get(d, 'check of ' + m['property']))} |")
fixed = ['* ' + x.replace('fixed: ', '') for x in json.load(open(ROOT + '/KNOWN_FINDINGS.json'))['fixed']]
s = open(ROOT + '/DESIGN.md').read()
for name, body in (('PROPERTIES', rows), ('SEEDS', seeds), ('FIXES', fixed)):
    a, b = f'<!-- {name} -->', f'<!-- /{name} -->'
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n' + '\n'.join(body) + '\n' + s[j:]
open(ROOT + '/DESIGN.md', 'w').write(s)
print('ok', len(rows), len(seeds), len(fixed))
