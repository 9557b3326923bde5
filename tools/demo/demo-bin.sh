#!/bin/bash
# Builds the binary from /repo's sources (with a stand-in for the qhull-based triangulation) and runs run.py EXE in a scratch directory; exit 0: the property holds.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.63.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0
export CARGO_TARGET_DIR="$d/target" RUST_BACKTRACE=0
unset GRAPH_DIM RUST_LOG RUSTC RUSTDOC RUSTFLAGS LD_LIBRARY_PATH
mkdir -p "$d/demo/src" "$d/work"
cat > "$d/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[features]
default = ["gpl"]
gpl = []
[[bin]]
name = "osmgraphing"
path = "/repo/src/bin/osmgraphing/mod.rs"
[dependencies]
osmgraphing = { path = "/repo", features = ["gpl"] }
chrono = "0.4"
clap = "2.33"
env_logger = "0.6"
log = "0.4"
progressing = "3"
rand = "0.7"
rand_pcg = "0.2"
serde = { version = "1", features = ["derive"] }
smallvec = "1"
[patch.crates-io]
nd-triangulation = { path = "../nd-stub" }
T
cp -r "$here/nd-stub" "$d/nd-stub"
(cd "$d/demo" && cargo --config /opt/vp/cargo-offline.toml build --offline --quiet --bin osmgraphing) || { echo "demo does not build"; exit 98; }
cp "$here"/*.py "$d/work/"
cd "$d/work" && timeout 200 python3 run.py "$d/target/debug/osmgraphing"
