#!/bin/bash
# Build the race-detector stress against /repo's working tree, unchanged code, into /verif/build.
set -e
cd "$(dirname "$0")/../harness"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
REPO=${REPO:-/repo}; OUT=${OUT:-$(realpath ..)/build}
mkdir -p "$OUT"
sed "s#=> /repo#=> $REPO#" go.mod > "$OUT/race.mod"; cp go.sum "$OUT/race.sum"
# boltdb does pointer arithmetic the compiler's checkptr instrumentation rejects
go test -modfile "$OUT/race.mod" -race -gcflags=all=-d=checkptr=0 -c -o "$OUT/race.test" ./race
