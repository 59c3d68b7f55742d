"""developer's view of one contract module: t.py MODULE [name-substring] [-s symbolic only] [-v]"""
import sys; sys.path[:0]=['/verif']; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import logging; logging.disable(50)
import importlib
from pyver import api
args=[a for a in sys.argv[1:] if not a.startswith('-')]
mod=importlib.import_module('contracts.'+args[0])
sel = args[1] if len(args)>1 else ''
for c in api.REGISTRY:
    if c.fn.__module__!=mod.__name__: continue
    if sel and sel not in c.name: continue
    if c.mode!='bounded':
        r=api.run_symbolic(c, 200)
        o=r['obligations']; n=sum(v[0] for v in o.values()); d=sum(v[1] for v in o.values())
        print(('OK ' if r['status']=='proved' else '** ')+c.name, r['status'], str(r['reason'] or '')[:300], r['failed'] or '', f'{d}/{n}', 'paths',r['paths'],'cov',r['covered'],'t %.1f'%r.get('wall',0), 'q',r['queries'])
        if r['status']!='proved' and r.get('trace'): print('\n'.join(r['trace'])[-1200:])
        if r['status']=='refuted': print('   ', str(r['model'])[:500])
    if '-s' not in sys.argv:
        r=api.run_concrete(c,1,c.trials,30)
        if r['status']=='ok': print('   conc ok', r['trials'],'skip',r['skipped'],'checks',r['checks'],round(r['wall'],1))
        else:
            print('   ** conc', r['status'], r.get('failed'), r.get('detail'), str(r.get('inputs'))[:500])
            if r.get('trace'): print('\n'.join(r['trace'])[-1200:])
