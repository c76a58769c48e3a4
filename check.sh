#!/bin/bash
# check.sh <ID> <quick|thorough>     decides a property on /repo's working tree
# check.sh --replay <ID> <case>      runs one case again
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
cd "$(dirname "$0")" || exit 2
here=$PWD
replay=
if [ "$1" = --replay ]; then replay=$3; set -- "$2" "${VERIF_TIER:-quick}"; fi
id=$1
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p .build evidence
exec 9>.build/lock
flock 9
race=
case $id in C15) race=-race ;; esac
cd harness || exit 2
b=$here/.build
go build -o "$b/noisegen" ./cmd/noisegen || exit 2
if ! go build $race -o "$b/vh$race" . 2>"$b/build.log"; then
    cat "$b/build.log"; echo "the harness does not build on this tree"; exit 2
fi
noise=
rm -rf "$b/overlay"
if [ -z "$NO_NOISE" ] && "$b/noisegen" -repo /repo -out "$b/overlay" >"$b/noise.log" 2>&1 \
   && go build $race -overlay "$b/overlay/overlay.json" -o "$b/vhn$race" . >>"$b/noise.log" 2>&1; then
    noise="-noisebin $b/vhn$race"
else
    echo "note: the noise build is not available, see .build/noise.log"
fi
flock -u 9
cd "$here" || exit 2
if [ -n "$replay" ]; then
    exec "$b/vh$race" drive -prop "$id" -tier "$tier" $noise -out "$here/evidence" -known "$here/known-findings.txt" -from "$replay" -max 1
fi
exec "$b/vh$race" drive -prop "$id" -tier "$tier" $noise -out "$here/evidence" -known "$here/known-findings.txt" $VH_ARGS
