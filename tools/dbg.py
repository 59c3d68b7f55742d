import sys; sys.path[:0]=['/verif']; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import importlib, logging; logging.disable(50)
from pyver import api, proof, core
m, n = sys.argv[1:3]
importlib.import_module('contracts.'+m)
def dbg(cond):
    import z3
    from pyver import sums
    ctx=core.context()
    ex=sums.prepare(ctx+[core.bterm(cond)])
    print('N', len(ex))
    for e in ex:
        if 'srank_set!4' in str(e): print('   EX', str(e)[:1500])
orig=proof.check
def chk(cond,*a):
    r=orig(cond,*a)
    if r[0]!='proved':
        dbg(cond)
        print('PC', core.S.pc[-8:]); print('GOAL', str(core.bterm(cond))[:6000]); print(r)
    return r
proof.check=chk
for c in api.REGISTRY:
    if c.name==n: print({k:v for k,v in api.run_symbolic(c,300).items() if k in('status','reason','failed')})
