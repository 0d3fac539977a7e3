#!/bin/bash
# P15: shared library with feature cdecl (loaded with dlopen) and the stdcall functions in a 32-bit process
. "$ROOT_TOOLS/build.sh"
build_harness && build_cdecl && build_stdcall || { echo "build failed (no verdict)"; exit 2; }
exec "$RV_ROOT/target/release/rvharness" P15 "$@"
