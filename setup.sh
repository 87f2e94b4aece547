#!/bin/bash
# Checks that the offline toolchain can build every harness binary (the checks
# build again from /repo's current tree when they run).
cd "$(dirname "$0")/harness" || exit 1
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/usr/local/go/bin"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
cp go.mod go.sum "$tmp/" && go build -buildvcs=false -modfile="$tmp/go.mod" -o "$tmp/" ./cmd/...
