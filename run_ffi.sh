#!/bin/bash
# ./run_ffi.sh C22 [quick|thorough]   check the foreign-language bindings against /repo's working tree
# ./run_ffi.sh replay FILE
set -uo pipefail
cd "$(dirname "$0")"
./build.sh || exit 2
./ffi/build.sh || exit 2
if [ "${1:-}" = replay ]; then
    exec python3 ffi/check.py replay "$2"
fi
tier=${2:-${VERIF_TIER:-quick}}
limit=870; [ "$tier" = thorough ] && limit=7200
timeout --kill-after=10 "$limit" python3 ffi/check.py "$tier"
