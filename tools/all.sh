#!/bin/bash
# Runs every check (or those named) against /repo as it stands; says which are not quiet.
cd /verif
for i in ${@:-$(seq -f C%02g 1 36)}; do
  s=$SECONDS; out=$(./run.sh $i 2>&1); rc=$?
  [ $rc = 0 ] && echo "$i quiet $((SECONDS-s))s" || { echo "$i ALARM rc=$rc $((SECONDS-s))s"; echo "$out" | grep -v "  .*executions" | head -${LINES_MAX:-25}; }
done
