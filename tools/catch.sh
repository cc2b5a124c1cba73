#!/bin/bash
# tools/catch.sh [SEED...]: applies each planted bug to /repo, runs the quick check of its property, undoes it
cd /verif/seeded || exit 1
[ $# -gt 0 ] || set -- *
for s in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
  [ -n "$CHECK" ] && p=$CHECK
  git -C /repo apply "$PWD/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  t0=$(date +%s)
  timeout 900 bash /verif/check.sh $p quick > /tmp/catch.$s.$p.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(($(date +%s)-t0))s $(grep -c '^VIOLATION' /tmp/catch.$s.$p.log) $(python3 -c "
import json
try: print(json.load(open('/verif/evidence/$p.replay.json'))['message'][:110].replace('\n',' '))
except Exception as e: print(e)" )"
done
