#!/bin/bash
# catch.sh "ids" [checks]: run the checks of each planted bug's property (or the given ones) against a scratch copy with the bug applied
for id in $1; do
 D=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'].lower())")
 W=$(mktemp -d /tmp/catch-XXXX); cp -a /repo "$W/r"; cp -a /verif "$W/v"; (cd "$W/r" && git apply "$D/patch.diff") || echo "$id DOES NOT APPLY"
 for c in ${2:-$p}; do
  out=$(cd "$W/v" && VP_REPO=$W/r /opt/venv/bin/python checks/$c.py --tier quick --no-evidence 2>&1); rc=$?
  echo "$id $c rc=$rc $(echo "$out" | grep -m1 'violated' | cut -c1-150)"
 done
 rm -rf "$W"
done
