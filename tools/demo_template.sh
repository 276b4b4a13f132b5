#!/bin/bash
# exit 0 when the property holds on the tree in the current directory, nonzero otherwise
R="$PWD"; H="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$H/main.rs" "$T/src/main.rs"; sed "s#@REPO@#$R#g" "$H/Cargo.toml.in" > "$T/Cargo.toml"; cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cd "$T" && CARGO_TARGET_DIR="$T/target" timeout 280 cargo run --offline -q
