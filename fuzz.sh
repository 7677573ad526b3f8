#!/bin/bash
# fuzz.sh <ID>: coverage-guided search (libFuzzer) over the generators of one property's suites, FUZZ_S seconds each.
# The harness re-runs whatever libFuzzer stops at; only a case that fails there is a violation (exit 1).
# Prints one JSON object per suite to the file named by FUZZ_INFO. Without a nightly toolchain it does nothing.
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=$1
H="$ROOT/target/release/lc3-verif-harness"
export VERIF_ROOT="$ROOT" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$ROOT/target/fuzz"
S=${FUZZ_S:-45}
J=$(nproc)
LOG=$(mktemp)
if ! cargo +nightly fuzz build --fuzz-dir "$ROOT/fuzz" -O --debug-assertions -s none >"$LOG" 2>&1; then
    echo "note: the coverage-guided search was skipped (it does not build here)" >&2
    rm -f "$LOG"
    exit 0
fi
rm -f "$LOG"
B=$(find "$ROOT/target/fuzz" -path '*/release/case' -type f | head -n 1)
W=$(mktemp -d)
rc=0
for s in $("$H" "$ID" suites); do
    mkdir -p "$W/$s/c" "$W/$s/a"
    python3 - "$W/$s/c" "${VERIF_SEED:-1}" "$ID/$s" <<'P'
import random, sys
r = random.Random(f"{sys.argv[2]} {sys.argv[3]}")
for i in range(64):
    open(f"{sys.argv[1]}/{i}", "wb").write(bytes(r.randrange(256) for _ in range(2 ** r.randrange(4, 12))))
P
    t0=$(date +%s)
    (cd "$W/$s" && FUZZ_CASE="$ID/$s" timeout $((S * 2 + 120)) "$B" -fork="$J" -max_total_time="$S" -max_len=8192 -len_control=0 \
        -timeout=100 -rss_limit_mb=3500 -seed="${VERIF_SEED:-1}" -artifact_prefix="$W/$s/a/" c >log 2>&1)
    n=$(grep -o '^#[0-9]*' "$W/$s/log" | tail -n 1 | tr -d '#')
    cov=$(grep -o 'cov: [0-9]*' "$W/$s/log" | tail -n 1 | grep -o '[0-9]*')
    [ -n "$FUZZ_INFO" ] && echo "{\"suite\":\"$s (coverage-guided)\",\"cases\":${n:-0},\"edges\":${cov:-0},\"wall_s\":$(($(date +%s) - t0))}" >>"$FUZZ_INFO"
    for a in "$W/$s"/a/*; do
        [ -f "$a" ] || continue
        timeout 300 "$H" "$ID" bytes "$s" "$a"
        r=$?
        if [ $r = 1 ]; then
            rc=1
        elif [ $r -ge 124 ]; then
            mkdir -p "$ROOT/replays"
            cp "$a" "$ROOT/replays/$ID-$s-fuzz.bin"
            echo "the process does not survive this case (status $r); run it with: $H $ID bytes $s $ROOT/replays/$ID-$s-fuzz.bin"
            echo "VIOLATION property=$ID replay=$ROOT/replays/$ID-$s-fuzz.bin"
            rc=1
        fi
        [ $rc = 1 ] && break 2
    done
done
rm -rf "$W"
exit $rc
