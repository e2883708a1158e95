#!/bin/bash
# Maintenance: run every check (quick) and print the ones that are not quiet. usage: all.sh [quick|thorough]
cd "$(dirname "$0")/.." || exit 2
for f in checks/C*.py; do
  c=$(basename "$f" .py)
  o=$(/opt/venv/bin/python run.py "$c" "${1:-quick}" 2>&1); r=$?
  [ $r = 0 ] || { echo "== $c rc=$r"; echo "$o" | grep -v KNOWN-FINDING | tail -8 | cut -c1-600; }
done
echo done
