#!/bin/bash
# trybugs.sh [ID..] : apply each planted bug to a scratch copy and run its property's quick check against it
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=/tmp/trybug.$id; rm -rf $w; mkdir -p $w; cp -a /repo/spflow $w/; (cd $w && git init -q . && git apply /verif/seeded/$id/patch.diff) || echo "apply failed $id"
  TV_REPO=$w ./run.sh check $p --no-evidence > $w.out 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -m1 VIOLATION $w.out)"
  rm -rf $w $w.out
done
