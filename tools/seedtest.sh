#!/bin/bash
# seedtest.sh ID...: build, tests, demo (both ways) and the check of each seeded bug.
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$here/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo dirty; exit 1; }
  (cd /repo && bash "$d/demo.sh" >/tmp/demo0.log 2>&1); d0=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: doesn't apply"; continue; }
  bash /opt/vp/build.sh >/tmp/bld.log 2>&1; b=$?
  t=$(bash "$here/tools/tst.sh" | sed -n 2p)
  (cd /repo && bash "$d/demo.sh" >/tmp/demo1.log 2>&1); d1=$?
  out=$(bash "$here/check.sh" "$prop" quick 2>/tmp/check.log); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop build=$b demo0=$d0 demo1=$d1 check=$rc $(echo "$out" | grep -m1 VIOLATION) | $t"
done
