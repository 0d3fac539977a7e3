#!/bin/bash
# P12: a AddressSanitizer build first, then the plain build at full size
. "$ROOT_TOOLS/build.sh"
build_harness && build_asan || { echo "build failed (no verdict)"; exit 2; }
if [ $# = 0 ]; then
    stage asan P12 0.15; rc=$?
    if [ $rc = 1 ]; then cp "$RV_ROOT/target/asan-P12.json" "$RV_ROOT/evidence/P12.json" 2>/dev/null || printf '{"property": "P12", "tier": "%s", "seed": %s, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped by the sanitizer", "samples": ["see the replay file"]}, "wall_s": 0, "violations": 1}\n' "$VERIF_TIER" "$VERIF_SEED" >"$RV_ROOT/evidence/P12.json"; exit 1; fi
    [ $rc = 0 ] || exit $rc
    export RV_EXTRA="$EXTRA"
fi
exec "$RV_ROOT/target/release/rvharness" P12 "$@"
