#!/bin/bash
# build.sh [property]: build the checker from /repo's working tree; prints the path of the binary.
# C22 also links the bindings of giron-wasm, so only it depends on them.
set -u
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR
if [ "${1:-}" = C22 ]; then
    feat="--features wasm"
    dir=target/wasm
else
    feat=
    dir=target
fi
log=$(mktemp)
if ! cargo build -q --release --offline --locked $feat --target-dir "$dir" >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the checker does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
echo "$PWD/$dir/release/gcheck"
