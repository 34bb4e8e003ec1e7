#!/bin/bash
# apply each planted bug to /repo, run the check of its property, undo; prints caught / missed
cd /verif
for d in ${@:-seeded/*/}; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  out=$(VERIF_SEED=1 timeout 900 python3-vt check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  v=$(echo "$out" | grep '^VIOLATION' | sed 's/replay=[^ ]*//')
  echo "$id $p rc=$rc $v | $(echo "$out" | grep -m1 'failing input' | cut -c1-160) | obligations: $(echo "$out" | grep -c 'failed obligation')"
done
