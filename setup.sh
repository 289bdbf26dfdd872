#!/bin/bash
# warms the build cache of the monitors (plain and race builds)
HERE="$(cd "$(dirname "$0")" && pwd)"
. "$HERE/scripts/env.sh"
mkdir -p "$HERE/.build" "$HERE/evidence"
cd "$HERE/harness" || exit 1
cp go.mod "$HERE/.build/go.setup.mod"; cp go.sum "$HERE/.build/go.setup.sum"
go build -modfile="$HERE/.build/go.setup.mod" -o /dev/null . || exit 1
GOARCH=386 CGO_ENABLED=0 go build -modfile="$HERE/.build/go.setup.mod" -o /dev/null . || true
go build -race -modfile="$HERE/.build/go.setup.mod" -o /dev/null . || exit 1
rm -f "$HERE/.build/go.setup.mod" "$HERE/.build/go.setup.sum"
