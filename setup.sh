#!/bin/bash
# Builds the framework once (every check builds again from /repo's current tree).
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
cd "$(dirname "$0")/harness" || exit 2
mkdir -p ../.build ../evidence
go build -o ../.build/noisegen ./cmd/noisegen && go build -o ../.build/vh . || exit 2
go build -race -o ../.build/vh-race . || exit 2
