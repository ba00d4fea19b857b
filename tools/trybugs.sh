#!/bin/bash
# trybugs.sh [ID..]: run each planted bug's check against it (in /repo, undone straight afterwards)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  python3 check.py $p quick > /tmp/w/try.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -c undischarged /tmp/w/try.out) undischarged; $(grep '^VIOLATION' /tmp/w/try.out)"
  [ $rc = 1 ] && sed -n 2,3p evidence/replay/$p.txt | cut -c1-200; grep '^failed' evidence/replay/$p.txt 2>/dev/null | head -3
done
