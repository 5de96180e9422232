#!/bin/bash
# Warms the Go build cache: builds the generator and every harness once.
cd "$(dirname "$0")" || exit 1
export VERIF_DIR=$PWD
ls harness | grep -E '^c[0-9]+$' | tr a-z A-Z | xargs -P 4 -I{} env BUILD_ONLY=/dev/null ./check.sh {} >/dev/null 2>&1
exit 0
