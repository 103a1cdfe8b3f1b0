#!/bin/bash
# build.sh OUT: the simulator with /repo's current tree inside, as OUT/simcheck.
set -e
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out/o"
cd "$here/sim"
GOWORK=off go build -o "$out/instr" ./instr
"$out/instr" -out "$out/o"
GOWORK="$out/o/go.work" go build -overlay "$out/o/overlay.json" -o "$out/simcheck" ./cmd/simcheck
