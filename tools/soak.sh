#!/bin/bash
# soak.sh DIR ROUNDS: runs every check again and again on a copy of /repo and of the framework, with changing seeds; what alarms is kept in DIR.
d=$1; mkdir -p $d; rm -rf $d/repo $d/verif; cp -a /repo $d/repo; mkdir $d/verif; cp -a /verif/harness /verif/check.sh /verif/known-findings.txt $d/verif/
sed -i "s#=> /repo#=> $d/repo#" $d/verif/harness/go.mod; sed -i "s#-repo /repo#-repo $d/repo#" $d/verif/check.sh
for i in $(seq ${3:-1} $2); do
for p in ${PROPS:-$(seq -f 'C%02g' 1 28)}; do
 [ $((i % 3)) = 2 ] && export NO_NOISE=1 || unset NO_NOISE
 s=$i; [ $((i % 2)) = 1 ] && s=1
 VERIF_SEED=$s $d/verif/check.sh $p quick > $d/out.log 2>&1; rc=$?
 echo "$i $p seed=$s rc=$rc $(grep -m1 'quick:' $d/out.log | sed 's/.*checks, //') $(grep -m1 ^case $d/out.log | cut -c1-150)" >> $d/log.txt
 [ $rc != 0 ] && { cp $d/out.log $d/$i.$p.out; mkdir -p $d/$i.$p; cp -r $d/verif/evidence/replay/$p-* $d/$i.$p/; }
done; done
