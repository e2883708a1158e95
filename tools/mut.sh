#!/bin/bash
# mut.sh <patch|git-rev> <ID...>: run checks against a scratch copy of /repo's hamilton package with a patch applied (or at a revision)
set -u
p="$1"; [ -f "$p" ] && p=$(realpath "$p"); shift; set -- "$p" "$@"
d=$(mktemp -d /tmp/mut.XXXXXX)
if [ -f "$1" ]; then
  cp -a /repo/hamilton $d/hamilton; (cd $d && git init -q . && git apply --whitespace=nowarn "$1") || { echo "patch failed"; rm -rf $d; exit 9; }
else
  git -C /repo archive "$1" hamilton | tar x -C $d
fi
shift
for id in "$@"; do VERIF_REPO=$d timeout 900 /opt/venv/bin/python /verif/run.py $id quick 2>&1 | grep -v "^part .*evaluations" | cut -c1-${W:-400} | tail -${T:-6}; done
rm -rf "$d"
