#!/bin/bash
# usage: seeds.sh "2 3 4" [ids...]   quick checks on the unchanged tree with other seeds; prints what is not quiet
cd /verif || exit 2
seeds=$1; shift
ids="$*"; [ -z "$ids" ] && ids=$(seq -f 'C%02g' 1 30)
for s in $seeds; do for i in $ids; do
  out=$(VERIF_SEED=$s VERIF_TIER=${VERIF_TIER:-quick} timeout 900 bash run.sh "$i" ${TIER_ARG:-} 2>&1); rc=$?
  echo "seed $s $i rc=$rc $(echo "$out" | grep -E 'held:|VIOLATION|ERROR|violated' | head -3 | cut -c1-300 | tr '\n' ' ')"
done; done
