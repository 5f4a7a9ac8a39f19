#!/bin/bash
# mut.sh SEED: apply a planted bug, run its property's check as the gate does, undo
cd /verif; d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 9
VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3-vt irv/check.py $p --noevidence > /tmp/mut.$1 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$1 $p rc=$rc $(grep -m1 VIOLATION /tmp/mut.$1 | cut -c1-150) :: $(tail -1 /tmp/mut.$1 | cut -c1-10) $(grep -o 'wall.*' /tmp/mut.$1 | tail -1)"
