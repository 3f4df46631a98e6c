#!/bin/bash
# Regenerates the crates over /repo's sources and builds the checker. Prints its path.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export GEN=${GEN:-$V/build/gen}
mkdir -p "$V/build"
exec 9>"$V/build/.lock"
flock 9
bash "$V/tools/gen.sh"
cd "$V/ws"
export CARGO_TARGET_DIR="$V/build/target" CARGO_NET_OFFLINE=true
if ! RUSTUP_TOOLCHAIN=nightly-2025-05-17 cargo build --offline --locked >"$V/build/build.log" 2>&1; then
  grep -E -A14 '^error' "$V/build/build.log" | head -120
  echo "the checker does not build against ${REPO:-/repo} (log: $V/build/build.log)"
  exit 2
fi
