#!/bin/bash
# hit.sh <seed id>...: applies each planted bug to /repo, runs the check of its property (and those in $ALSO), undoes it.
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
for q in $p $ALSO; do
s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} /verif/check.sh $q quick >/tmp/hit.log 2>&1; rc=$?
echo "$id $q rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^case' /tmp/hit.log | cut -c1-160)"
done
git -C /repo checkout -- .
done
