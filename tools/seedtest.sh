#!/bin/bash
# usage: tools/seedtest.sh [seed ...]   runs the check of each planted bug's property against a scratch copy with it
# (CHECK=Cnn: that check instead of the bug's own; VERIF_REPO points the checks at the copy)
cd "$(dirname "$0")/.." || exit 3
for s in ${@:-$(ls seeded)}; do
  p=${CHECK:-$(python3 -c "import json; print(json.load(open('seeded/$s/meta.json'))['property'])")}
  d=$(mktemp -d /tmp/seedtest.XXXXXX)
  cp -a /repo $d/repo
  git -C $d/repo checkout -q -- . && git -C $d/repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: DOES NOT APPLY"; rm -rf "$d"; continue; }
  t=$(date +%s)
  VERIF_REPO=$d/repo timeout 900 ./run $p > $d/out 2>&1; rc=$?
  echo "$s $p rc=$rc $(( $(date +%s) - t ))s $(grep -m1 VIOLATION $d/out)"
  rm -rf "$d"
done
