#!/bin/bash
# tryseeds.sh [ID...]: runs each planted bug's property check on a scratch copy of /repo with the bug applied
cd /verif/seeded || exit 1
for s in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  wt=/tmp/trysrc-$s; mkdir -p $wt
  git -C /repo archive HEAD | tar x -C $wt
  (cd $wt && git init -q . 2>/dev/null; git apply /verif/seeded/$s/patch.diff) || { echo "$s APPLY FAILED"; continue; }
  out=$(VH_REPO=$wt timeout 900 python3 /verif/check.py $p 2>/tmp/try-$s.err); rc=$?
  echo "$s $p rc=$rc $(echo "$out" | grep VIOLATION | head -2 | cut -c1-200)"
  rm -rf -- "/tmp/trysrc-$s"
done
