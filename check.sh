#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the encoder and the native harnesses
# from the current trees and decides one property.
set -u
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
scratch=$(mktemp -d /tmp/symgo.XXXXXX) || exit 3
trap 'rm -rf -- "$scratch"' EXIT
(cd "$here/engine" && go build -o "$scratch/symgo" .) & a=$!
(cd "$here/harness" && go build -o "$scratch/native" ./cmd/replay) & b=$!
c=
if [ "$prop" = S01 ]; then
  (cd "$here/harness" && CGO_ENABLED=1 go build -race -o "$scratch/native-race" ./cmd/replay) & c=$!
fi
wait $a || { echo "check.sh: the encoder does not build" >&2; exit 3; }
wait $b || { echo "check.sh: the harnesses do not build against the current tree" >&2; exit 3; }
if [ -n "$c" ]; then wait $c || { echo "check.sh: the race build failed" >&2; exit 3; }; fi
"$scratch/symgo" -prop "$prop" -tier "$tier" -dir "$here/harness" -replay "$scratch/native" -out "$here" -known "$here/known_findings.json" ${CHECK_FLAGS:-}
