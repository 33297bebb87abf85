#!/bin/bash
# Builds the engine and warms the build cache; every check also works without it.
set -eu
V=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$V/.cache"
cd "$V/engine"
env -u GOFLAGS GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod GOCACHE="$V/.cache/go-build" go build -buildvcs=false -o "$V/.cache/vengine" .
echo "engine built"
