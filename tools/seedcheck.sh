#!/bin/bash
# seedcheck.sh [ID...]: applies each planted bug to /repo, runs the check of its property (ALLPROPS=1: all), undoes it
cd /verif
[ -n "$(git -C /repo status --porcelain --untracked-files=no)" ] && { echo "/repo is not clean"; exit 2; }
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -n "$ALLPROPS" ] && p=all
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  out=$(python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "== $id $p rc=$rc"
  echo "$out" | grep -v '^KNOWN' | cut -c1-220 | head -${LINES_MAX:-6}
done
