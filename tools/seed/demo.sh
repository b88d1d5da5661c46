#!/bin/bash
# builds main.rs (beside this file) against the tree in the current directory and runs it
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE/main.rs" "$W/src/main.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
fawkes-crypto = { path = "$REPO" }
fawkes-crypto_derive = { path = "$REPO/fawkes-crypto_derive" }
bellman = { package = "bellman_ce", version = "=0.3.1", default-features = false }
pairing = { package = "pairing_ce", version = "=0.18" }
ff = { package = "ff_ce", version = "=0.7", features = ["derive"] }
num = "0.2.1"
rand = "=0.4"
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
typenum = "=1.12.0"
borsh = "0.7.0"
[profile.dev]
opt-level = 2
debug = 0
overflow-checks = true
T
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true
(cd "$W" && cargo build --offline >"$W/log" 2>&1) || { tail -30 "$W/log"; exit 3; }
"$W/target/debug/demo"
