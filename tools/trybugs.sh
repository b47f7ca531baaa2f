#!/bin/bash
# trybugs.sh [IDs]: runs each planted bug against the check of its property, on a scratch copy of /repo
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for b in "$@"; do
  rm -rf /tmp/tb/$b; mkdir -p /tmp/tb/$b
  git -C /repo archive HEAD | tar x -C /tmp/tb/$b
  (cd /tmp/tb/$b && git init -q . && git apply /verif/seeded/$b/patch.diff) || { echo "$b: no apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  s=$(date +%s)
  VF_EVIDENCE=/tmp/tb/$b/evidence VF_REPO=/tmp/tb/$b timeout 900 python3-vt vf/run.py $p > /tmp/tb/$b/out 2>&1; r=$?
  echo "$b $p exit=$r $(( $(date +%s)-s ))s $(grep VIOLATION /tmp/tb/$b/out | head -2 | cut -c1-200 | tr '\n' ' ')"
  rm -rf /tmp/tb/$b
done
