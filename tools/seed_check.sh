#!/bin/bash
# usage: seed_check.sh [-p PROP] ID...   applies each planted bug to /repo, runs the quick check of its property (or PROP), undoes it
P=; if [ "$1" = -p ]; then P=$2; shift 2; fi
cd /verif
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  p=${P:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick ./check.sh $p quick > /tmp/seedcheck.out 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id $p: exit=$r $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/seedcheck.out || tail -1 /tmp/seedcheck.out)"
done
