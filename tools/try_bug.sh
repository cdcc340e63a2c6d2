#!/bin/bash
# usage: tools/try_bug.sh ID [--nocheck]: confirms a planted bug in a scratch
# copy of /repo and runs the check of its property against that copy.
id=$1; dir=$(cd "$(dirname "$0")/.." && pwd); bug=$dir/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$bug/meta.json'))['property'])")
tmp=$(mktemp -d /tmp/bug.XXXXXX); trap 'rm -rf "$tmp"' EXIT
export PYTHONDONTWRITEBYTECODE=1; ulimit -v 6000000
cp -a /repo "$tmp/r"; cp -a "$bug" "$tmp/d"; rm -f "$tmp/d/patch.diff" "$tmp/d/meta.json"
cd "$tmp/r" || exit 2
bash "$tmp/d/demo.sh" >"$tmp/clean.log" 2>&1 || { echo "$id BAD demo fails on clean"; cat "$tmp/clean.log"; exit 3; }
git apply "$bug/patch.diff" || { echo "$id BAD patch"; exit 3; }
timeout 300 bash "$tmp/d/demo.sh" >"$tmp/bug.log" 2>&1 && { echo "$id BAD demo passes with bug"; exit 3; }
TZ=UTC timeout 100 /opt/venv/bin/python -m pytest -q -p no:cacheprovider verktyg/testsuite >"$tmp/t.log" 2>&1 || { echo "$id BAD tests"; tail -5 "$tmp/t.log"; exit 3; }
[ "$2" = --nocheck ] && { echo "$id confirmed"; tail -2 "$tmp/bug.log"; exit 0; }
cd "$dir" && VERIF_REPO=$tmp/r VERIF_EVIDENCE=$tmp ./check "$prop" quick >"$tmp/c.log" 2>&1; rc=$?
echo "$id $prop rc=$rc $(grep -c '^VIOLATION' "$tmp/c.log") $(grep -m1 -A3 '^VIOLATION' "$tmp/c.log" | cut -c1-300)"
