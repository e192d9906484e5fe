#!/bin/bash
# check.sh BIN ID: builds BIN (a harness of /verif/harness, which compiles /repo's sources) and decides property ID.
# VERIF_SEED, VERIF_TIER=quick|thorough. Exit: 0 held, 1 violated, 3 could not be decided.
here=$(cd "$(dirname "$0")" && pwd)
bin=$1
shift
export VERIF_ROOT=$here CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
export CARGO_TARGET_DIR=$here/target
if [ "${VERIF_TIER:-quick}" = thorough ]; then
    # edge counters in the code under test guide a second search, over mutated choice sequences
    export CARGO_TARGET_DIR=$here/target/cov RUSTC_WORKSPACE_WRAPPER=$here/tools/cov-rustc
fi
log=$(mktemp)
if ! (cd "$here/harness" && cargo build --offline -p "$bin") >"$log" 2>&1; then
    grep -E -A12 '^error' "$log" | head -80
    rm -f "$log"
    echo "check.sh: cannot build $bin from /repo"
    exit 3
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/$bin" check "$@"
