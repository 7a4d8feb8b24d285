#!/bin/bash
# Build the library with its bindings from /repo's current working tree, and generate the Python module.
set -euo pipefail
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET || true
mkdir -p target/py
now=$( (cd /repo && find src build.rs uniffi.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd /verif && find stubs -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum ffi/Cargo.toml ffi/Cargo.lock ffi/uniffi-bindgen.rs) | sha256sum | cut -d' ' -f1)
if [ "$(cat target/source.stamp 2>/dev/null || true)" != "$now" ] || [ ! -e target/py/hyperbee.py ]; then
    rm -f "$PWD/target/source.stamp"
    cargo clean --offline -p hyperbee-ffi >/dev/null 2>&1 || true
    cargo build --offline >target/build.log 2>&1 || { tail -60 target/build.log >&2; echo "build failed" >&2; exit 2; }
    target/debug/uniffi-bindgen generate --library target/debug/libhyperbee.so --language python --out-dir target/py --no-format >>target/build.log 2>&1 || { tail -20 target/build.log >&2; echo "generating the bindings failed" >&2; exit 2; }
    cp target/debug/libhyperbee.so target/py/libhyperbee.so
    echo "$now" >target/source.stamp
fi
