#!/bin/bash
# tools/mkseed.sh ID: put the demonstration kit (stand-ins, generator, lock file) into seeded/ID
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1
mkdir -p "$S/kit/tools"
cp "$V/tools/gen.sh" "$S/kit/tools/"
cp -r "$V/stubs" "$S/kit/"
cp "$V/ws/Cargo.lock" "$S/kit/"
[ -f "$S/demo.sh" ] || cp "$V/tools/seedkit/demo.sh" "$S/demo.sh"
