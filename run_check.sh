#!/bin/bash
# run_check.sh <property> [--replay <file>]
# Builds what the check needs from /repo's working tree and runs it.
#   exit 0  the property held on everything explored
#   exit 1  with a line "VIOLATION property=<id> replay=<path>": it is broken
#   other   the check could not give an answer
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
# the edge! macro of dot-generator trips a lint that newer compilers deny by default
export RUSTFLAGS="-W semicolon_in_expressions_from_macros"
id="$1"
mkdir -p "$here/out" "$here/evidence" "$here/target"

# For the properties about what the helpers and macros of the repository let a program write:
# a program of theirs that no longer compiles, though the repository itself does, breaks them.
uncompilable() { # property crate
    CARGO_TARGET_DIR="$here/target/repo" cargo build --release --offline --manifest-path /repo/Cargo.toml >"$here/out/build-repo.log" 2>&1 || return
    for c in dot-structures dot-generator into-attr into-attr-derive; do
        CARGO_TARGET_DIR="$here/target/repo-$c" cargo build --release --offline --manifest-path "/repo/$c/Cargo.toml" >>"$here/out/build-repo.log" 2>&1 || return
    done
    cp "$here/out/build-$2.log" "$here/out/$1-does-not-compile.log"
    echo "programs that use the documented helpers and macros do not compile (crate $2)"
    echo "VIOLATION property=$1 replay=$here/out/$1-does-not-compile.log"
    exit 1
}

build() { # crate
    local log="$here/out/build-$1.log"
    if ! CARGO_TARGET_DIR="$here/target/$1" cargo build --release --offline --manifest-path "$here/$1/Cargo.toml" >"$log" 2>&1; then
        echo "cannot build the harness crate $1 against /repo (log: $log)"
        grep -m5 -A12 '^error' "$log"
        case "$1" in attrs | macros) uncompilable "$id" "$1" ;; esac
        exit 3
    fi
}

case "$id" in
P01 | P02 | P03 | P04 | P05 | P06 | P07 | P08 | P09 | P10 | P11 | P19 | P22 | P23 | P24) crate=lang ;;
P12 | P13 | P14 | P15 | P25) crate=exec ;;
P16) crate=attrs ;;
P17 | P18 | P20) crate=macros ;;
P21) crate=configs ;;
*)
    echo "unknown property $id"
    exit 3
    ;;
esac
build "$crate"
case "${VERIF_TIER:-quick} $# $id" in
"thorough 1 "P01 | "thorough 1 "P02 | "thorough 1 "P03 | "thorough 1 "P04 | "thorough 1 "P05 | "thorough 1 "P06 | "thorough 1 "P07 | "thorough 1 "P08 | "thorough 1 "P10 | "thorough 1 "P24) guided=1 ;;
*) exec "$here/target/$crate/release/$crate" "$@" ;;
esac
"$here/target/$crate/release/$crate" "$@" || exit

# thorough: then a coverage-guided search (libFuzzer) over the same generators
secs="${VERIF_GUIDED_S:-240}"
RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$here/target/guided" cargo fuzz build --fuzz-dir "$here/guided" --release -s none guided >"$here/out/build-guided.log" 2>&1 || {
    echo "no coverage-guided search: it cannot be built here (log: $here/out/build-guided.log)"
    exit 0
}
bin="$(find "$here/target/guided" -path '*release/guided' -type f -perm -u+x | head -n1)"
work="$(mktemp -d "$here/out/guided-$id.XXXXXX")"
trap 'rm -rf "$work"' EXIT
mkdir "$work/corpus" "$work/found"
ulimit -s 1000000 2>/dev/null
pids=()
for i in 1 2 3 4 5 6; do
    VERIF_CHECK="$id" "$bin" "$work/corpus" -seed=$((${VERIF_SEED:-1} * 100 + i)) -max_total_time="$secs" -max_len=3000 -len_control=20 -rss_limit_mb=4000 -timeout=100 \
        -reload=1 -print_final_stats=1 -artifact_prefix="$work/found/" >"$work/log.$i" 2>&1 &
    pids+=($!)
done
wait "${pids[@]}"
for f in "$work"/found/*; do
    [ -f "$f" ] || continue
    "$here/target/$crate/release/$crate" "$id" --guided found "$f" || exit
done
runs=$(sed -n 's/^stat::number_of_executed_units: *//p' "$work"/log.* | awk '{n += $1} END {print n + 0}')
features=$(sed -n 's/.* ft: \([0-9]*\).*/\1/p' "$work"/log.* | sort -n | tail -n1)
"$here/target/$crate/release/$crate" "$id" --guided done "$runs" "${features:-0}" "$secs"
echo "guided search of $secs s: $runs executions, ${features:-0} features"
