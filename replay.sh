#!/bin/bash
# replay.sh FILE.json: runs the recorded solver assignment against the real code.
set -u
f=$1
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
scratch=$(mktemp -d /tmp/symgo.XXXXXX) || exit 3
trap 'rm -rf -- "$scratch"' EXIT
race=
[ "$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$f")" = S01 ] && race=-race
(cd "$here/harness" && go build $race -o "$scratch/native" ./cmd/replay) || exit 3
eval "$(python3 - "$f" <<'P'
import json,sys,shlex
d=json.load(open(sys.argv[1]))
print("name=%s tier=%s inputs=%s"%(shlex.quote(d["harness"]),shlex.quote(d["tier"]),shlex.quote(",".join(map(str,d["inputs"] or [])))))
P
)"
timeout 60 "$scratch/native" -run "$name" -tier "$tier" -inputs "$inputs"
