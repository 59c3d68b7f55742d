"""which functions of the package no contract names (development aid)"""
import ast, glob, os, sys, importlib
sys.path.insert(0, '/verif'); 
from pyver import api
named = set()
for f in sorted(glob.glob('/verif/contracts/p*.py')):
    importlib.import_module('contracts.' + os.path.basename(f)[:-3])
for k in api.REGISTRY if hasattr(api, 'REGISTRY') else []:
    named.update(k.functions)
tot = cov = 0
for f in sorted(glob.glob('/repo/seyfert/**/*.py', recursive=True)):
    mod = f[len('/repo/'):-3].replace('/', '.')
    names = []
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.FunctionDef):
            names.append((n.name, n))
        if isinstance(n, ast.ClassDef):
            names += [(n.name + '.' + m.name, m) for m in n.body if isinstance(m, ast.FunctionDef)]
    miss = [(a, n.end_lineno - n.lineno) for a, n in names if mod + '.' + a not in named]
    tot += len(names); cov += len(names) - len(miss)
    if miss:
        print(mod, f'{len(names)-len(miss)}/{len(names)}', ' '.join(f'{a}({l})' for a, l in miss))
print(cov, tot)
