#!/bin/bash
# builds a scratch crate against the crate in the current directory and runs main.rs: exit 0 iff the property holds
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir -p $w/c/src
cp "$here/main.rs" $w/c/src/main.rs
cp $repo/Cargo.lock $w/c/Cargo.lock 2>/dev/null || true
cat > $w/c/Cargo.toml <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
libgoldilocks = { path = "$repo" }
serde_json = { version = "1", default-features = false, features = ["alloc"] }
hex = "0.4.3"
[workspace]
X
cd $w/c
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg verif_hooks"
cargo build -q --offline --target-dir $w/t
timeout 200 $w/t/debug/demo
