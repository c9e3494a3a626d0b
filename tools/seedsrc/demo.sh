#!/bin/bash
# Run with cwd = the repository.  Exit 0: behaves; nonzero: the property is broken.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp "$here"/*.go "$work"/
cat > "$work/go.mod" <<MOD
module demo

go 1.21

require github.com/savaki/kafka v0.0.0

replace github.com/savaki/kafka => $repo
MOD
cd "$work"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
go build @RACE@ -o demo . || exit 3
timeout 200 ./demo
