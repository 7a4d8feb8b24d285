#!/bin/bash
# Build the explorer from /repo's current working tree. Usage: ./build.sh
set -euo pipefail
cd "$(dirname "$0")/mc"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET || true
mkdir -p target
# cargo compares modification times; compare contents as well, so that no change is ever missed
now=$( (cd /repo && find src build.rs -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd /verif && find stubs mc/hb mc/harness -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat target/source.stamp 2>/dev/null || true)" != "$now" ]; then
    rm -f "$PWD/target/source.stamp"
    cargo clean --offline --release -p hyperbee-mc -p harness >/dev/null 2>&1 || true
    cargo build --offline --release -p harness >target/build.log 2>&1 || { tail -60 target/build.log >&2; echo "build failed" >&2; exit 2; }
    echo "$now" >target/source.stamp
fi
[ -x target/release/mc ]
