#!/bin/bash
# check.sh ID [quick|thorough]: builds the engine and runs one check.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$V VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_GOCACHE=${VERIF_GOCACHE:-$V/.cache/go-build}
ENGINE=$V/.cache/vengine
mkdir -p "$V/.cache"
if ! (cd "$V/engine" && env -u GOFLAGS GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod GOCACHE="$VERIF_GOCACHE" go build -buildvcs=false -o "$ENGINE.$$" . && mv "$ENGINE.$$" "$ENGINE.$1"); then
  echo "ERROR (no verdict): cannot build the engine"; exit 2
fi
exec "$ENGINE.$1" check "$1"
