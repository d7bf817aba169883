#!/bin/bash
# detect.sh [ids]: applies each seeded bug to /repo, runs its check, undoes
cd /verif; export VERIF_SEED=1 VERIF_TIER=quick
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: no apply"; continue; }
  t0=$(date +%s); timeout 900 ./run.sh check $p > /tmp/sw/d-$d.log 2>&1; rc=$?
  git -C /repo checkout -- . ; echo "$d rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 ^VIOLATION /tmp/sw/d-$d.log | cut -c1-200)"
done; git -C /repo status --short
