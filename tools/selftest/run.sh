#!/bin/bash
# run.sh: the instrumenter and the simulator against a file that uses every
# concurrency, timer, context and iterator construct a future change may bring.
# It is called by each store.New of a scratch copy of /repo; a wrong result panics.
set -e
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d /tmp/verif.XXXXXX)
trap 'find "$out" -depth -delete 2>/dev/null' EXIT
cp -a /repo "$out/repo"
cp "$here/feat.go.txt" "$out/repo/radix/zz_feat.go"
sed -i 's/^func New(opts ...Opt) Store { return/func New(opts ...Opt) Store { radix.FeatTest(); return/' "$out/repo/new.go"
grep -q FeatTest "$out/repo/new.go"
mkdir "$out/o"
cd "$here/../../sim"
GOWORK=off go build -o "$out/instr" ./instr
"$out/instr" -repo "$out/repo" -out "$out/o"
GOWORK="$out/o/go.work" go build -overlay "$out/o/overlay.json" -o "$out/simcheck" ./cmd/simcheck
for p in C01 C03 C05 C09 C11 C12; do
  "$out/simcheck" run -prop $p -secs "${1:-5}" -evidence "$out/ev.json" -replays "$out/replays"
done
