#!/bin/bash
# Builds main.rs (beside this file) against /repo's crate and runs it in a scratch directory; exit 0: the property holds.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.63.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0
export CARGO_TARGET_DIR="$d/target" RUST_BACKTRACE=0
unset GRAPH_DIM RUST_LOG RUSTC RUSTDOC RUSTFLAGS LD_LIBRARY_PATH
mkdir -p "$d/demo/src" "$d/work"
cp "$here/main.rs" "$here/common.rs" "$d/demo/src/"
cat > "$d/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
osmgraphing = { path = "/repo" }
serde = { version = "1", features = ["derive"] }
smallvec = "1"
T
cp /repo/Cargo.lock "$d/demo/Cargo.lock"
(cd "$d/demo" && cargo --config /opt/vp/cargo-offline.toml build --offline --quiet --bin demo) || { echo "demo does not build"; exit 98; }
cd "$d/work" && timeout 120 "$d/target/debug/demo"
