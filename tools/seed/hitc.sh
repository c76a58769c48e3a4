#!/bin/bash
# hitc.sh <seed id or patch file>...: like hit.sh, on a scratch copy of /repo and of the framework, so several can run at once.
for id in "$@"; do
if [ -f "$id" ]; then f=$id; p=; else f=/verif/seeded/$id/patch.diff; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])"); fi
d=$(mktemp -d /tmp/hitc.XXXXXX); cp -a /repo $d/repo; mkdir $d/verif; cp -a /verif/harness /verif/check.sh /verif/known-findings.txt $d/verif/
sed -i "s#=> /repo#=> $d/repo#" $d/verif/harness/go.mod; sed -i "s#-repo /repo#-repo $d/repo#" $d/verif/check.sh
git -C $d/repo apply $f || { echo "$id: does not apply"; rm -rf -- "$d"; continue; }
for q in ${PROPS:-$p} $ALSO; do
s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} $d/verif/check.sh $q quick >$d/hit.log 2>&1; rc=$?
echo "$id $q rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^case' $d/hit.log | cut -c1-160)"
[ $rc = 2 ] && tail -5 $d/hit.log
done
rm -rf -- "$d"
done
