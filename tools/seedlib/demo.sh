#!/bin/bash
# Builds main.rs against the library in the current directory (/repo) and runs it.
# Exit 0: the property holds for the demonstrated history; otherwise nonzero.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export CARGO_NET_OFFLINE=true
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$here/sim.rs" "$work/src/"
cp "$here/Cargo.lock.demo" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mlx9064x = { path = "$repo/mlx9064x" }
mlx9064x-test-data = { path = "$repo/mlx9064x-test-data" }
embedded-hal = "0.2.5"
[profile.dev]
incremental = false
debug = 0
T
cd "$work" || exit 3
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$work/target" cargo build -q --offline || exit 4
timeout 60 "$work/target/debug/demo"
