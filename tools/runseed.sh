#!/bin/bash
# runseed.sh NAME... : runs each seed's property check on a scratch copy with the patch applied.
for n in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
  git -C /tmp/sr checkout -q -- . ; git -C /tmp/sr apply /verif/seeded/$n/patch.diff || { echo "$n: patch does not apply"; continue; }
  (cd /verif && DD_REPO=/tmp/sr DD_BUILD=/tmp/srb python3 dd/check.py $P > /tmp/seed.chk 2>&1); echo "$n $P exit $?"; grep -v "^property" /tmp/seed.chk | head -${L:-3} | cut -c1-300
  git -C /tmp/sr checkout -q -- .
done
