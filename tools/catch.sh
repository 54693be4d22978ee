#!/bin/bash
# catch.sh [ids...]: apply each planted bug to a copy of /repo and run its property's check
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  T=$(mktemp -d /tmp/catch-XXXXXX); cp -a /repo $T/repo; git -C $T/repo checkout -q -- .
  git -C $T/repo apply $PWD/seeded/$d/patch.diff || { echo "$d: DOES NOT APPLY"; rm -rf $T; continue; }
  VERIF_REPO=$T/repo bin/check $p ${TIERARG} > $T/out 2>&1; rc=$?
  echo "$d ($p): rc=$rc $(grep -c '^VIOLATION' $T/out) $(grep '^# ' $T/out | head -1 | cut -c1-160) $( [ $rc = 2 ] && tail -3 $T/out | cut -c1-300)"
  rm -rf $T
done
