#!/bin/bash
# runs the checks of planted bugs against a scratch clone with the bug: try.sh SEED... ; prints which are caught
# (the registered checks run against /repo; VERIF_REPO points check.py at the clone only here)
cd "$(dirname "$0")/.."
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  d=$(mktemp -d /tmp/try.XXXXXX)
  git clone -q /repo "$d/repo" && cp /repo/Cargo.lock "$d/repo/" && git -C "$d/repo" apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; rm -rf "$d"; continue; }
  cp -r check.py prep.py registry.py engine harness "$d/"; mkdir "$d/build"; cp -p build/symx "$d/build/"; cp known_findings.json "$d/"
  VERIF_REPO="$d/repo" timeout 900 python3 "$d/check.py" "$p" > /tmp/try.$s.log 2>&1; rc=$?
  rm -rf "$d"
  n=$(grep -c "^VIOLATION property=$p " /tmp/try.$s.log)
  echo "$s $p rc=$rc violations=$n $(grep 'counterexample in' /tmp/try.$s.log | head -1) $(tail -1 /tmp/try.$s.log)"
done
