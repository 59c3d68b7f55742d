#!/bin/bash
# runs the check of each planted change's property against a scratch copy of the package with the change applied
cd "$(dirname "$0")/.."
for id in "$@"; do
  d=$(mktemp -d /tmp/catchXXXX); cp -a /repo/. $d/; git -C $d apply $PWD/seeded/$id/patch.diff
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  o=$(PYVER_EVIDENCE=$d/ev PYVER_REPO=$d PYTHONPATH=$d timeout 900 /opt/venv/bin/python check.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$o" | grep -c ^VIOLATION) violation line(s): $(echo "$o" | grep ^VIOLATION | head -1) | $(echo "$o" | grep undecided | head -1)"
  rm -rf $d
done
