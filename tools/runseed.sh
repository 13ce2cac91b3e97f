#!/bin/bash
# development: runs the check of each seeded bug's property against a scratch copy with the bug; usage: runseed.sh [id ...]
cd /verif; ids=${@:-$(ls seeded)}
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  w=/tmp/seed/r_$i; rm -rf $w; mkdir -p $w; git -C /repo archive HEAD | tar x -C $w; (cd $w && git init -q . && git apply /verif/seeded/$i/patch.diff) || { echo "$i patch fails"; continue; }
  s=$(date +%s); o=$(KTL_REPO=$w timeout 900 python3 check.py $p quick 2>&1); rc=$?; e=$(( $(date +%s) - s ))
  echo "$i $p rc=$rc ${e}s | $(echo "$o" | grep -c 'failed obligation') obl | $(echo "$o" | grep '^VIOLATION' | sed 's/.*json//') | $(echo "$o" | grep -m1 'failing input' | cut -c1-140) | $(echo "$o" | grep -m1 'failed obl' | cut -c1-160)$(echo "$o" | grep -m1 'not decided\|NO ANSWER' | cut -c1-160)"
  rm -rf $w
done
