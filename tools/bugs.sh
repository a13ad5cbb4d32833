#!/bin/bash
# bugs.sh [ID...]: applies each planted bug to /repo in turn and runs the check of its property against it
cd /verif/seeded
for id in ${*:-$(ls)}; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s); out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check $p 2>&1); rc=$?
  git -C /repo checkout -- . ; git -C /repo clean -fdq
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c '^VIOLATION')"
done
