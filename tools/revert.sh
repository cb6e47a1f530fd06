#!/bin/bash
# revert.sh [COMMIT...]: takes each fix: commit out of /repo's working tree, runs the quick check of its property, puts it back.
cd /verif
grep ^fixed: known_findings.txt | while read -r _ p c rest; do
  [ $# -gt 0 ] && ! [[ " $* " == *" $c "* ]] && continue
  p=${p#property=}
  if ! git -C /repo show $c -- esp_idf_size | git -C /repo apply -R 2>/tmp/revert.err; then echo "$c $p DOES NOT APPLY $rest"; git -C /repo checkout -- .; continue; fi
  s=$(date +%s)
  out=$(VERIF_SEED=1 timeout 900 /opt/venv/bin/python check.py $p --tier quick 2>&1 </dev/null); rc=$?
  git -C /repo checkout -- .
  echo "$c $p rc=$rc $(( $(date +%s) - s ))s $rest"
done
