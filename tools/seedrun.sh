#!/bin/bash
# Applies each planted bug (or those named) to /repo, runs the check of its property, undoes it, says what
# happened and notes it in tools/seedresults.txt.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$SECONDS
  out=$(VERIF_TIER=quick VERIF_SEED=1 ./run.sh ${CHECK:-$p} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=${CHECK:-$p} "; then r=caught; else r="MISSED rc=$rc"; fi
  echo "$id ${CHECK:-$p} $r $((SECONDS-s))s $(echo "$out" | grep -m1 ^VIOLATION)"
  if [ -z "$CHECK" ]; then
    grep -v "^$id " tools/seedresults.txt 2>/dev/null > tools/.sr; echo "$id $p $r" >> tools/.sr; sort tools/.sr > tools/seedresults.txt; rm -f tools/.sr
  fi
done
