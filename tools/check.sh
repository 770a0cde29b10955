#!/bin/bash
# tools/check.sh PROPERTY [quick|thorough]: verifies the contracts of one property against /repo's working tree.
here=$(cd "$(dirname "$0")/.." && pwd)
tier=${2:-${VERIF_TIER:-quick}}
export HOME="${HOME:-/root}"
if [ ! -x "$here/bin/govc" ] || [ -n "$(find "$here/govc" -newer "$here/bin/govc" -name '*.go' | head -1)" ]; then
    bash "$here/tools/build.sh" || exit 2
fi
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
exec "$here/bin/govc" -verif "$here" -repo /repo -prop "$1" -tier "$tier"
