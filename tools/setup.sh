#!/bin/bash
# checks that the tools build offline; every check builds its own copy
set -e
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
d=$(mktemp -d)
cd "$(dirname "$0")/../vcg" && go build -o "$d/vcg" .
cp -r ../harness "$d/h" && cd "$d/h" && go build -o "$d/vh" .
rm -rf "$d"
which z3 z3-new cvc5
