#!/bin/bash
# sweep.sh ID "seeds" [tier]: run a check for several seeds, print failures only
cd "$(dirname "$0")/.."
for s in $2; do
  out=$(/opt/venv/bin/python checks/$1.py --seed $s --tier ${3:-quick} --no-evidence 2>&1); rc=$?
  echo "$1 seed=$s rc=$rc $(echo "$out" | grep -o '[0-9]* monitor.*' | head -1)"
  [ $rc -ne 0 ] && echo "$out" | grep -v monitor | cut -c1-420 | head -6
done
