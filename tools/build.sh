#!/bin/bash
# Build the harness against /repo's working tree, into /verif/build (or: REPO=<tree> OUT=<folder>).
set -e
cd "$(dirname "$0")/../harness"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
REPO=${REPO:-/repo}; OUT=${OUT:-$(realpath ..)/build}
mkdir -p "$OUT"
go build -o "$OUT/instrument" ./cmd/instrument
"$OUT/instrument" "$REPO" "$OUT/instr" "$(go list -m -f '{{.Dir}}' github.com/boltdb/bolt)" "$OUT/bolt"
sed "s#=> /repo#=> $REPO#" go.mod > "$OUT/alt.mod"; cp go.sum "$OUT/alt.sum"
echo "replace github.com/boltdb/bolt => $OUT/bolt" >> "$OUT/alt.mod"
go test -modfile "$OUT/alt.mod" -c -overlay "$OUT/instr/overlay.json" -o "$OUT/h.test" ./core
