#!/bin/bash
# tryseeds.sh [id...]: applies each planted bug to /repo, runs its property's check, undoes it
cd /verif/seeded
for s in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  t=$(date +%s)
  (cd /verif && VERIF_SEED=1 timeout 900 python3-vt check.py $p > /tmp/try.out 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(( $(date +%s)-t ))s failed=$(grep -c '^failed' /tmp/try.out) $(grep ^VIOLATION /tmp/try.out | head -1 | cut -c1-140)"
done
