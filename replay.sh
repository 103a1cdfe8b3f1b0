#!/bin/bash
# replay.sh FILE: runs a replay file against /repo's current tree, with a trace.
set -u
f=$(realpath "$1")
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
trap 'find "$out" -depth -delete 2>/dev/null' EXIT
"$here/build.sh" "$out" >"$out/build.log" 2>&1 || { cat "$out/build.log" >&2; exit 3; }
"$out/simcheck" replay "$f"
