#!/bin/bash
# ./check.sh <property id> [quick|thorough]: rebuilds the simulator with /repo's working tree and checks one property.
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
log=$(mktemp)
if ! bash sim/build.sh >"$log" 2>&1; then
  tail -40 "$log" >&2; rm -f "$log"
  echo "the simulator does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
exec sim/target/release/ksim check "$1"
