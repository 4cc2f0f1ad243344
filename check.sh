#!/bin/bash
# check.sh ID quick|thorough: builds the engine from /verif/engine and decides property ID on /repo's current tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0
mkdir -p "$here/bin" "$here/evidence" "$here/replays"
if ! (cd "$here/engine" && go build -o "$here/bin/gosym" .); then
  echo "engine build failed" >&2
  exit 3
fi
exec "$here/bin/gosym" -prop "$1" -tier "${2:-quick}" -repo "${ZZV_REPO:-/repo}" -verif "$here"
