#!/bin/bash
# Builds the harness once (with and without the race detector) to warm the build cache.
cd "$(dirname "$0")" || exit 2
VERIF_BUILDONLY=1 ./check.sh C01 quick && VERIF_BUILDONLY=1 VERIF_RACE=1 ./check.sh C01 quick
