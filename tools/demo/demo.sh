#!/bin/bash
# run in /repo after the build: exit 0 when the behaviour is right
H="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$H/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
laz = { path = "$R", features = ["parallel"] }
[workspace]
EOF
for l in "$R/Cargo.lock" /opt/vp/Cargo.lock; do [ -f "$l" ] && cp "$l" "$T/Cargo.lock" && break; done
cd "$T" && cargo run -q --offline --target-dir "$T/target"
