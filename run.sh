#!/bin/bash
# ./run.sh <property> [quick|thorough]   check one property against /repo's working tree
# ./run.sh replay FILE                   replay a violation
set -uo pipefail
cd "$(dirname "$0")"
./build.sh || exit 2
if [ "${1:-}" = replay ]; then
    if grep -q '"kind": *"ffi"' "$2"; then exec ./run_ffi.sh replay "$2"; fi
    exec mc/target/release/mc replay "$2"
fi
tier=${2:-${VERIF_TIER:-quick}}
limit=870; [ "$tier" = thorough ] && limit=7200
ulimit -v 25000000
timeout --kill-after=10 "$limit" mc/target/release/mc "$1" --tier "$tier" --out "$PWD"
