#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
HERE="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/d/src"
cat > "$T/d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
qesa = { path = "$PWD" }
curve25519-dalek = "2.0.0-alpha.1"
rand = "0.7"
merlin = "1.2.0"
libc = "0.2"
[profile.release]
debug-assertions = true
overflow-checks = true
EOF
cp "$HERE/Cargo.lock" "$T/d/Cargo.lock"
cat "$HERE/prelude.rs" "$HERE/main.rs" > "$T/d/src/main.rs"
cd "$T/d" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS="--cfg qesa_hooks --cap-lints allow"
cargo build --release --offline > "$T/log" 2>&1 || { grep -A9 '^error' "$T/log" | head -40; exit 3; }
timeout 200 "$T/target/release/demo"
