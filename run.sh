#!/bin/bash
# one check: builds the simulator against /repo's working tree, then explores
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
if ! out="$("$here/sim/build.sh" 2>&1)"; then
  echo "build failed" >&2
  echo "$out" | grep -v '^warning' | tail -60 >&2
  exit 2
fi
export VERIF_HOME="$here"
exec "$here/sim/target/release/ifcsim" check "$@"
