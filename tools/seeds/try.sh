#!/bin/bash
# try.sh ID...: applies each planted bug to /repo, runs the quick check of its property, undoes it.
cd /verif
for id in "$@"; do
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py ${CHECK:-$p} --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id ${CHECK:-$p} rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
