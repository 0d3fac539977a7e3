#!/bin/bash
# P14: a ThreadSanitizer build first, then the plain build at full size
. "$ROOT_TOOLS/build.sh"
build_harness && build_tsan || { echo "build failed (no verdict)"; exit 2; }
if [ $# = 0 ]; then
    stage tsan P14 0.03; rc=$?
    if [ $rc = 1 ]; then cp "$RV_ROOT/target/tsan-P14.json" "$RV_ROOT/evidence/P14.json" 2>/dev/null || printf '{"property": "P14", "tier": "%s", "seed": %s, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped by the sanitizer", "samples": ["see the replay file"]}, "wall_s": 0, "violations": 1}\n' "$VERIF_TIER" "$VERIF_SEED" >"$RV_ROOT/evidence/P14.json"; exit 1; fi
    [ $rc = 0 ] || exit $rc
    export RV_EXTRA="$EXTRA"
fi
# the preloaded shim of the child processes (without it they run in plain surroundings)
gcc -O1 -shared -fPIC -o "$RV_ROOT/target/shim.so" "$ROOT_TOOLS/shim.c" -ldl && export RV_SHIM_SO=$RV_ROOT/target/shim.so
exec "$RV_ROOT/target/release/rvharness" P14 "$@"
