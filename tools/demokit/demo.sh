#!/bin/bash
# Builds the scenario beside this file against the overlord tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$here/kit.rs" "$dir/src/"
cp "$here/lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
random_leader = ["overlord/random_leader"]
[dependencies]
overlord = { path = "$repo" }
async-trait = "0.1"
bytes = { version = "1.1", features = ["serde"] }
rlp = "0.5"
tokio = { version = "1.19", features = ["macros", "rt", "time", "sync", "test-util"] }
bit-vec = "0.6"
serde_json = "1.0"
[profile.dev]
debug = 0
T
export CARGO_TARGET_DIR=${DEMO_TARGET:-$dir/target}
cd "$dir" || exit 2
cargo build --offline $DEMO_FEATURES > build.log 2>&1 || { tail -30 build.log; exit 3; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
