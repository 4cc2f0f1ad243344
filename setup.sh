#!/bin/bash
# Builds the engine once (check.sh rebuilds it, from the cache, before every check).
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0
mkdir -p bin evidence replays
cd engine && go build -o ../bin/gosym .
