#!/bin/bash
# hunt.sh ids... : apply each seed to /repo and run its property's check
cd /verif
[ $# -eq 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: NO APPLY"; continue; }
  t0=$SECONDS
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check.sh $p >/tmp/seeds/hunt.$s.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $((SECONDS-t0))s $(grep -m1 '^VIOLATION' /tmp/seeds/hunt.$s.log | cut -c1-150)"
done
