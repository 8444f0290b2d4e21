#!/bin/bash
# Runs demo.rs against the library in the current directory: exit 0 if it behaves, nonzero otherwise.
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd); D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"; cp "$H/demo.rs" "$D/src/main.rs"; cp "$R/Cargo.lock" "$D/" 2>/dev/null
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rustsat = { path = "$R", default-features = false, features = ["optimization", "multiopt", "fxhash", "proof-logging"] }
rustsat-batsat = { path = "$R/batsat" }
pigeons = { path = "$R/pigeons" }
anyhow = "1"
T
cd "$D" || exit 3
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
cargo build --offline -q || exit 3
timeout 120 "$D/target/debug/demo"
