#!/bin/bash
# Builds the framework once, so that the checks find a warm build cache and
# an error shows here.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d /tmp/verif.XXXXXX)
trap 'find "$out" -depth -delete 2>/dev/null' EXIT
bash "$here/build.sh" "$out"
echo ok
