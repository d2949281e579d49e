#!/bin/bash
# catch.sh ID...: applies each planted bug to a scratch copy of /repo and runs its property's check on it
cd /verif
W=${W:-/tmp/catch-repo}
rm -rf "$W"; mkdir -p "$W"; git -C /repo archive HEAD | tar -x -C "$W"; git -C "$W" init -q
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C "$W" apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  s=$(date +%s); SYMX_REPO=$W VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/catch.log 2>&1; rc=$?
  git -C "$W" apply -R /verif/seeded/$i/patch.diff
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/catch.log | cut -c1-150)"
done
rm -rf "$W"
