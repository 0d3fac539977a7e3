#!/bin/bash
# setup_cmd: builds everything the checks need from the committed files and /repo's current tree
set -u
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
cd "$ROOT" || exit 2
export CARGO_NET_OFFLINE=true
mkdir -p "$ROOT/target" "$ROOT/evidence"
export RV_ROOT=$ROOT
. "$ROOT/tools/build.sh"
build_harness && build_cdecl && build_stdcall && build_python && build_asan && build_tsan
