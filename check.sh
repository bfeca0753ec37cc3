#!/bin/bash
# check.sh <property> [quick|thorough]: builds the verifier, regenerates every
# obligation from /repo's current source and decides the property.
V="$(cd "$(dirname "$0")" && pwd)"
export PATH=/usr/local/go/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
mkdir -p "$V/bin" "$V/evidence"
(cd "$V/govc" && go build -o "$V/bin/govc" .) || exit 2
exec "$V/bin/govc" -verif "$V" -repo /repo -check "$1" -tier "${2:-${VERIF_TIER:-quick}}"
