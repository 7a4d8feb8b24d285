#!/bin/bash
# Build everything once.
set -euo pipefail
cd "$(dirname "$0")"
./build.sh
./ffi/build.sh
