#!/bin/bash
# check.sh ID: builds what is needed from the current trees, then decides one property.
# 0: held on everything explored; 1: VIOLATION printed; anything else: the check itself could not run.
V=$(cd "$(dirname "$0")" && pwd)
"$V/build.sh" || exit 3
export NDV_ROOT=$V NDV_BINS=$V/target/bins
exec "$V/target/harness/release/ndv" "${NDV_CMD:-check}" "$@"
