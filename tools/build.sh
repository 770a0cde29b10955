#!/bin/bash
# Builds the verifier from the committed sources (offline).
set -e
cd "$(dirname "$0")/../govc"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export HOME="${HOME:-/root}"
mkdir -p ../bin
tmp=$(mktemp ../bin/govc.XXXXXX)
go build -o "$tmp" .
mv -f "$tmp" ../bin/govc
