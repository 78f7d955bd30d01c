#!/bin/bash
# Builds every harness (each check rebuilds what changed since).
cd "$(dirname "$0")" || exit 2
ls harness | sed -n 's/^\([A-Z][0-9]*\)\.\(cpp\|py\)$/\1/p' | grep -v '^Y0[2-9]' | BUILD_ONLY=1 xargs -P 8 -n1 ./check.sh
exit 0
