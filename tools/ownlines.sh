#!/bin/bash
# lists the lines a planted change removes that are not lines of the original repository
cd /repo
for id in "$@"; do
  /opt/venv/bin/python - "$id" <<'P'
import re,sys,subprocess
f=None
for l in open(f'/verif/seeded/{sys.argv[1]}/patch.diff'):
    if l.startswith('--- a/'): f=l[6:].strip()
    elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('-') and not l.startswith('---'):
        b=subprocess.run(['git','blame','-s','-L',f'{n},{n}',f],capture_output=True,text=True).stdout
        if not b.startswith('^603d5c3'): print(sys.argv[1], b.strip())
        n+=1
    elif l.startswith(' '): n+=1
P
done
