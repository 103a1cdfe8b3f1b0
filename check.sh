#!/bin/bash
# check.sh PROPERTY [quick|thorough]: instruments and builds /repo's current
# tree, then searches schedules and faults for a violation of the property.
# exit 0: none found; exit 1 and a VIOLATION line: found; else: an error.
set -u
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
here=$(cd "$(dirname "$0")" && pwd)
secs=${VERIF_SECS:-}
if [ -z "$secs" ]; then
  case $tier in
    thorough) secs=600 ;;
    *) secs=25 ;;
  esac
fi
. /opt/vp/env.sh
out=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
trap 'find "$out" -depth -delete 2>/dev/null' EXIT
t0=$(date +%s.%N)
"$here/build.sh" "$out" >"$out/build.log" 2>&1 || { cat "$out/build.log" >&2; echo "the check can't be built" >&2; exit 3; }
built=$(echo "$(date +%s.%N) - $t0" | bc 2>/dev/null || echo 0)
mkdir -p "$here/evidence" "$here/replays"
"$out/simcheck" run -prop "$prop" -tier "$tier" -seed "$seed" -secs "$secs" \
  -evidence "$here/evidence/$prop.json" -replays "$here/replays" -built "${built:-0}"
rc=$?
exit $rc
