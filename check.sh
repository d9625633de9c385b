#!/bin/bash
# check.sh <check> <property> [args]: rebuilds the harness from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
bash ./build.sh || { echo "HARNESS-ERROR: build failed" >&2; exit 2; }
ulimit -n 65536 2>/dev/null
exec timeout "${SAILMC_TIMEOUT:-3000}" .build/target/debug/mc "$@"
