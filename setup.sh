#!/bin/bash
# Builds everything once; the checks rebuild from the current trees (the build cache makes that fast).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
scratch=$(mktemp -d /tmp/symgo.XXXXXX)
trap 'rm -rf -- "$scratch"' EXIT
(cd "$here/engine" && go build -o "$scratch/symgo" .)
(cd "$here/harness" && go build -o "$scratch/native" ./cmd/replay)
