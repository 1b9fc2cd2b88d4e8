#!/bin/bash
# sweep.sh "C01 C02" "1 2 3" [tier]: run checks over several seeds, print only what is not quiet
cd "$(dirname "$0")/.."
for c in $1; do for s in $2; do
  out=$(VERIF_TIER=${3:-quick} ./run.sh $c --tier ${3:-quick} --seed $s 2>&1); rc=$?
  if [ $rc -ne 0 ]; then echo "== $c seed $s rc $rc"; echo "$out" | cut -c1-1800 | tail -8; else echo "ok $c $s $(echo "$out" | tail -1 | cut -c1-90)"; fi
done; done
