#!/bin/bash
# Runs demo_test.go, which lies beside this file, in the package of the current directory.
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
{ printf '{"Replace": {'; s=; for f in "$d"/*_test.go; do printf '%s"%s/zz_%s": "%s"' "$s" "$PWD" "$(basename "$f")" "$f"; s=,; done; printf '}}'; } >"$t/overlay.json"
race=; [ -f "$d/race" ] && race=-race
timeout 240 go test -vet=off $race -overlay "$t/overlay.json" -run '^TestDemo' -count=1 -timeout 200s .
