#!/bin/bash
# catch.sh [ID...]: run each planted bug's own check, on copies of the committed
# /verif and of /repo with the bug applied.
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
V=$(mktemp -d /tmp/cv.XXXX); R=$(mktemp -d /tmp/cr.XXXX)
git archive HEAD | tar x -C $V; cp -a /repo/. $R; git -C $R checkout -q -- .
sed -i "s#=> /repo#=> $R#" $V/falsify/go.mod
export GOVC_REPO=$R REPO_DIR=$R
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  grep -q "^property: $p" $V/contracts/props.conf || { echo "$s $p unclaimed"; continue; }
  git -C $R apply /verif/seeded/$s/patch.diff || { echo "$s: no apply"; continue; }
  out=$(bash $V/check.sh $p quick 2>&1); rc=$?
  git -C $R checkout -q -- .
  echo "$s rc=$rc $(echo "$out" | grep VIOLATION | head -1 | sed "s#replay=[^ ]*##") $(echo "$out" | tail -1)"
done
rm -rf $V $R
