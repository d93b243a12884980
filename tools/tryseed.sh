#!/bin/bash
# run the check of planted bugs in a scratch copy of the repository: tryseed.sh id...
W=$(mktemp -d /tmp/tryseed-XXXX)
cp -a /repo $W/repo; cp -a /verif $W/verif
export VERIF_REPO=$W/repo
cd $W/verif
for b in "$@"; do
  git -C $W/repo checkout -q -- .
  git -C $W/repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  t0=$(date +%s); python3-vt check.py $p > $W/log 2>&1; rc=$?
  echo "$b $p rc=$rc $(($(date +%s)-t0))s $(grep '^VIOLATION' $W/log | cut -c1-150)"
done
rm -rf "$W"
