#!/bin/bash
# Compiles /repo's own sources (through #[path]) with stand-ins for the Expander crates and runs
# main.rs beside this file against them: exit 0 when the property holds on the inputs it tries.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
export REPO="$PWD" GEN="$W/gen"
bash "$D/kit/tools/gen.sh" || exit 3
mkdir -p "$W/demo/src"
cp "$D/main.rs" "$W/demo/src/main.rs"
cp "$D/kit/Cargo.lock" "$W/demo/Cargo.lock"
cat > "$W/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
debug = false
[dependencies]
expander_compiler = { path = "$W/gen/ecc" }
circuit-std-rs = { path = "$W/gen/std" }
arith = { path = "$D/kit/stubs/arith" }
gf2 = { path = "$D/kit/stubs/gf2" }
serdes = { path = "$D/kit/stubs/serdes" }
gkr_engine = { path = "$D/kit/stubs/gkr_engine" }
mersenne31 = { path = "$D/kit/stubs/mersenne31" }
expander_circuit = { path = "$D/kit/stubs/expander_circuit" }
ethnum = "1.5.0"
rand = "0.8.5"
T
cd "$W/demo" || exit 3
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly-2025-05-17
cargo build --offline >"$W/log" 2>&1 || { grep -A12 '^error' "$W/log"; exit 3; }
timeout 200 "$W/target/debug/demo"
