#!/bin/bash
# Builds hyperbee from ./src against the stand-ins beside this file, in a scratch directory, and runs demo.rs against it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "${tmp:?}"' EXIT
export CARGO_NET_OFFLINE=true TMPDIR="$tmp"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET || true
mkdir -p "$tmp/hb" "$tmp/demo/src"
cp -r "$here/stubs" "$tmp/stubs"
cp "$here/Cargo.lock" "$tmp/demo/Cargo.lock"
cp "$here/demo.rs" "$tmp/demo/src/main.rs"
cp "$here/util.rs" "$tmp/demo/src/util.rs"
ln -s "$repo/src" "$tmp/hb/src"
cat >"$tmp/hb/Cargo.toml" <<EOF
[package]
name = "hyperbee-demo"
version = "0.5.0"
edition = "2021"
build = "$repo/build.rs"
[lib]
name = "hyperbee"
path = "src/lib.rs"
[features]
clib = ["tokio/rt-multi-thread", "dep:libc"]
ffi = []
debug = []
[dependencies]
derive_builder = { path = "../stubs/derive_builder" }
futures-lite = { path = "../stubs/futures-lite" }
libc = { version = "0.2.153", optional = true }
prost = "0.12.1"
thiserror = "1.0.50"
tokio = { package = "mc-tokio", path = "../stubs/mc-tokio", features = ["macros", "rt", "sync"] }
tokio-stream = "0.1.14"
tracing = "0.1.40"
replicator = { path = "../stubs/replicator", features = ["utils"] }
hypercore = { path = "../stubs/hypercore", features = ["sparse", "tokio", "replication"] }
[build-dependencies]
prost-build = "0.12.1"
EOF
cat >"$tmp/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hyperbee = { package = "hyperbee-demo", path = "../hb", features = ["debug", "clib"] }
hypercore = { path = "../stubs/hypercore" }
replicator = { path = "../stubs/replicator", features = ["utils"] }
mcrt = { path = "../stubs/mcrt" }
futures-util = { version = "0.3", default-features = false, features = ["std", "io"] }
tracing = "0.1.40"
prost = "0.12.1"
libc = "0.2"
[profile.dev]
debug = false
EOF
cd "$tmp/demo"
cargo build --offline --target-dir "$tmp/target" >"$tmp/log" 2>&1 || { tail -40 "$tmp/log"; exit 3; }
timeout 60 "$tmp/target/debug/demo"
