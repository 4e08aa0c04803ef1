#!/bin/bash
# check.sh ID: build the harness from /repo's working tree, run the check of that property.
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/evidence"
log=$(mktemp)
if ! bash "$here/tools/build.sh" >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"
  echo "INCONCLUSIVE: the harness does not build against /repo"
  exit 2
fi
rm -f "$log"
VH_ROOT="$here" exec "$here/target/debug/vh" run "$1"
