#!/bin/bash
# plant.sh ID [notest]: confirm a planted bug in a scratch copy: applies, passes the stable tests, demo 0 without and nonzero with it
D=/verif/seeded/$1; W=$(mktemp -d /tmp/plant-XXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/r"; cp -a "$D" "$W/d"; rm -f "$W/d/patch.diff" "$W/d/meta.json"; cd "$W/r"
timeout 300 bash "$W/d/demo.sh" >"$W/o" 2>&1; a=$?
git apply "$D/patch.diff" || { echo "$1 DOES NOT APPLY"; exit 1; }
timeout 300 bash "$W/d/demo.sh" >"$W/o2" 2>&1; b=$?
t=skipped
if [ "$2" != notest ]; then
 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$W/r PYTHONHASHSEED=0 timeout 800 /opt/venv/bin/python -W ignore tests/bounds_checks.py >"$W/t" 2>&1
 t=$(grep -c "are OK" "$W/t")
fi
echo "$1 demo clean=$a planted=$b tests=$t"; [ $a -ne 0 ] && tail -5 "$W/o"; tail -2 "$W/o2"
