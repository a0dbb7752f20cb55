#!/bin/bash
# usage: tools/catch.sh ID...   apply each planted bug to /repo in turn, run its property's check, undo it.
cd /verif
for id in "$@"; do
  d=seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply /verif/$d/patch.diff || { echo "$id APPLY"; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.sh ${CHK:-$p} > /tmp/catch.$id.log 2>&1; rc=$?
  e=$(date +%s)
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=${CHK:-$p} " /tmp/catch.$id.log; then r=CAUGHT; else r="MISSED(rc=$rc)"; fi
  echo "$id ${CHK:-$p} $r $((e-s))s $(grep -m1 -i 'what\|reason\|expected' /tmp/catch.$id.log | cut -c1-150)"
done
