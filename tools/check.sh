#!/bin/bash
# tools/check.sh <property id> [--thorough]: builds from /repo's working tree and runs one check.
# Exit 0: held; 1: VIOLATION printed; anything else: the check itself could not decide.
root="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$root/.build"
log="$root/.build/build-$$.log"
if ! "$root/tools/build.sh" >"$log" 2>&1; then
    echo "ERROR property=$1 the harness does not build against /repo"
    grep -A12 '^error' "$log" | head -60
    rm -f "$log"
    exit 3
fi
rm -f "$log"
VP_ROOT="$root" exec "$root/.build/target/debug/vp" check "$@"
