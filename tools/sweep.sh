#!/bin/bash
# usage: sweep.sh [seed-bug ids...]   applies each planted bug to /repo, runs its property's quick check, undoes it
cd /verif || exit 2
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$i/patch.diff" || { echo "$i DOES-NOT-APPLY"; continue; }
  s=$(date +%s); out=$(timeout 900 bash run.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -- .
  v=$(echo "$out" | grep -c "^VIOLATION property=$p ")
  if [ $rc = 1 ] && [ "$v" -gt 0 ]; then r=CAUGHT; else r=MISSED; fi
  echo "$i $p $r rc=$rc $(( $(date +%s)-s ))s"
done
