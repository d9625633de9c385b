#!/bin/bash
# Builds the harness from /repo's current working tree (incremental).
cd "$(dirname "$0")/harness" || exit 2
. ../env.sh
export CARGO_TARGET_DIR=/verif/.build/target RUST_BACKTRACE=0
mkdir -p /verif/.build
exec 9>/verif/.build/lock
flock 9
cargo build --offline --locked "$@" 2>/verif/.build/build.log
rc=$?
if [ $rc -ne 0 ]; then grep -E '^error' -A 12 /verif/.build/build.log | head -60 >&2; fi
exit $rc
