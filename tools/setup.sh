#!/bin/bash
# builds every harness once; a check builds again what changed
here=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$here/target
cd "$here/harness" || exit 1
status=0
for b in "$@"; do
    cargo build --offline -p "$b" 2>&1 | grep -E '^(error|    Finished)' -A6
    [ "${PIPESTATUS[0]}" = 0 ] || status=1
done
mkdir -p "$here/evidence"
exit $status
