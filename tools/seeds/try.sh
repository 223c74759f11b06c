#!/bin/sh
# Runs the check of each planted bug's property with the bug applied to /repo.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d rc=$rc $(echo "$out" | grep -a -E '^VIOLATION|^failed obl|^failing|^undecided|Error' | cut -c1-160 | tr '\n' '|')"
done
