#!/bin/bash
# check.sh <ID> [quick|thorough|replay FILE]: builds the harness against /repo's working tree and runs one property.
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
export VERIF_ROOT="$ROOT"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$ROOT/target"
LOG=$(mktemp)
if ! cargo build --release --offline --quiet --manifest-path "$ROOT/harness/Cargo.toml" >"$LOG" 2>&1; then
    echo "ERROR: the harness does not build" >&2
    tail -n 40 "$LOG" >&2
    rm -f "$LOG"
    exit 70
fi
rm -f "$LOG"
[ "$1" = build ] && exit 0
MODE=${2:-$VERIF_TIER}
if [ "$MODE" = thorough ] && [ "${FUZZ_S:-45}" != 0 ]; then
    export FUZZ_INFO=$(mktemp)
    "$ROOT/fuzz.sh" "$1" || { rm -f "$FUZZ_INFO"; exit 1; }
    VERIF_FUZZ_INFO=$(paste -sd, "$FUZZ_INFO")
    export VERIF_FUZZ_INFO
    rm -f "$FUZZ_INFO"
fi
exec "$ROOT/target/release/lc3-verif-harness" "$@"
