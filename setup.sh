#!/bin/bash
# builds every harness crate once from the committed files
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS="-W semicolon_in_expressions_from_macros"
mkdir -p "$here/out" "$here/evidence" "$here/target"
rc=0
for c in lang exec attrs macros configs; do
    [ -f "$here/$c/Cargo.toml" ] || continue
    CARGO_TARGET_DIR="$here/target/$c" cargo build --release --offline --manifest-path "$here/$c/Cargo.toml" || rc=1
done
exit $rc
