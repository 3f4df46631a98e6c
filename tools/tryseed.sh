#!/bin/bash
# tools/tryseed.sh ID [CHECK...]: demo without and with the patch in a scratch copy; then the checks against it
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1; id=$1; shift
W=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo/. "$W/repo" ; cd "$W/repo" || exit 1
if [ -z "$SKIPDEMO" ]; then
bash "$S/demo.sh" >"$W/o" 2>&1; echo "$id demo unchanged: $? $(tail -1 "$W/o")"
fi
git apply "$S/patch.diff" || { echo "does not apply"; exit 1; }
if [ -z "$SKIPDEMO" ]; then
bash "$S/demo.sh" >"$W/o" 2>&1; echo "$id demo patched: $? $(tail -1 "$W/o")"
fi
for c in "$@"; do
  GEN="$W/gen" REPO="$W/repo" bash "$V/tools/gen.sh"
  cp -r "$V/ws" "$W/ws"; sed -i "s#../../build/gen#$W/gen#; s#../../stubs#$V/stubs#" "$W/ws/chk/Cargo.toml" "$W/ws/symf/Cargo.toml" "$W/ws/kn/Cargo.toml"
  cp -r --reflink=auto "$V/build/target" "$W/target" 2>/dev/null
  break
done
if [ $# -gt 0 ]; then
  (cd "$W/ws" && RUSTUP_TOOLCHAIN=nightly-2025-05-17 CARGO_TARGET_DIR="$W/target" cargo build --offline >"$W/log" 2>&1) || { grep -A12 "^error" "$W/log" | head -40; exit 1; }
  for c in "$@"; do
    mkdir -p "$W/rep"
    VERIF_SEED=1 timeout 850 "$W/target/debug/chk" "$c" --tier ${TIER:-quick} --evidence "$W/e.json" --replays "$W/rep" --known "$V/known_findings.json" >"$W/o" 2>&1
    echo "$id check $c: exit $? $(grep -c VIOLATION "$W/o") violation line; $(grep -v VIOLATION "$W/o" | tail -1 | cut -c1-300)"
  done
fi
cd /; rm -rf "$W"
