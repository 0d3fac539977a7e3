#!/bin/bash
# P16: the Python extension, imported by the system Python
. "$ROOT_TOOLS/build.sh"
build_harness && build_python || { echo "build failed (no verdict)"; exit 2; }
exec "$RV_ROOT/target/release/rvharness" P16 "$@"
