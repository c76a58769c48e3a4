#!/bin/bash
# try.sh <id> : reads /tmp/seed/<id>/{patch.diff,demo_test.go,meta.json}, confirms it in a scratch copy and keeps it in /verif/seeded/<id>.
id=$1; src=/tmp/seed/$id; here=$(cd "$(dirname "$0")" && pwd)
c=/tmp/seedcopy.$id; rm -rf "/tmp/seedcopy.$id"; cp -a /repo $c || exit 2
trap 'rm -rf -- "/tmp/seedcopy.$id"' EXIT
mkdir -p $src; cp $here/demo.sh $here/helpers_test.go $src/; chmod +x $src/demo.sh
cd $c || exit 2
bash $src/demo.sh >/tmp/seed/$id.clean.log 2>&1 || { echo "$id: demo fails on the clean tree"; tail -30 /tmp/seed/$id.clean.log; exit 1; }
git apply $src/patch.diff || { echo "$id: patch does not apply"; exit 1; }
python3 - $src/patch.diff <<'P' || { echo "$id: changes lines that are not the original's"; exit 1; }
import sys,subprocess
f=None;base={};bad=0;n=0
for l in open(sys.argv[1]):
    l=l.rstrip('\n')
    if l.startswith('--- a/'):
        f=l[6:]; base=set(subprocess.check_output(['git','-C','/repo','show','3f6ee2d:'+f]).decode().split('\n'))
    elif l.startswith('-') and not l.startswith('---'):
        if l[1:].strip() and not l[1:].strip().startswith('//'):
            n+=1
            if l[1:] not in base: bad+=1; print('not original:',l)
sys.exit(1 if n==0 or bad==n else 0)
P
gofmt -l *.go */*.go stackexchange/*/*.go | grep . && echo "gofmt?"
go build ./... || { echo "$id: does not build"; exit 1; }
go vet . ./gobwas ./gorilla ./stackexchange/... >/dev/null 2>&1
for i in 1 2; do
unshare -Urn bash -c 'ip link set lo up; exec go test -vet=off -count=1 -cpu=1 -timeout 200s ./...' >/tmp/seed/$id.test.log 2>&1 || { echo "$id: tests fail"; tail -20 /tmp/seed/$id.test.log; exit 1; }
done
f=0; for i in 1 2 3; do bash $src/demo.sh >/tmp/seed/$id.bug.log 2>&1 && f=1; done
[ $f = 1 ] && { echo "$id: demo passes with the bug"; exit 1; }
rm -rf "/verif/seeded/$id"; mkdir -p /verif/seeded/$id; cp $src/* /verif/seeded/$id/; echo "$id: kept ($(tail -3 /tmp/seed/$id.bug.log | tr '\n' ' '))"; grep -m3 -E "demo_test.go|panic:" /tmp/seed/$id.bug.log
