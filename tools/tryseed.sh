#!/bin/bash
# tools/tryseed.sh ID...: run, against each planted change, the check of its property in a scratch copy of /repo
cd /verif
for id in "$@"; do
  prop=$(python3 -c "import json,sys; print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  tree=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo/. "$tree"/
  git -C "$tree" apply "/verif/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$tree"; continue; }
  out=$(CASTEP_REPO=$tree ./check "$prop" 2>&1); rc=$?
  echo "$id $prop rc=$rc $(grep -m1 -v -E 'KNOWN|VIOLATION' <<<"$out" | cut -c1-160)"
  rm -rf "$tree"
done
