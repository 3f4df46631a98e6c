#!/bin/bash
# tools/check.sh ID quick|thorough [--case NAME]
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; tier=${2:-quick}; shift 2
bash "$V/tools/build.sh" 1>&2 || exit 2
mkdir -p "$V/evidence" "$V/build/replays"
case $id in C13) exec timeout -k 5 880 python3 "$V/tools/kani.py" "$id" "$tier" "$@";; esac
exec timeout -k 5 840 "$V/build/target/debug/chk" "$id" --tier "$tier" --evidence "$V/evidence/$id.json" \
  --replays "$V/build/replays" --known "$V/known_findings.json" "$@"
