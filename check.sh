#!/bin/bash
# check.sh <ID> [--replay FILE]   decide one property against /repo's working tree.
#   VERIF_TIER=quick|thorough, VERIF_SEED=<n>
# exit 0 held, exit 1 + VIOLATION line broken, anything else: error of the check
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT
. "$ROOT/env.sh"
ID=${1:?property id}
CRATE=$(crate_of "$ID") || { echo "unknown property $ID"; exit 2; }
build_crate "$CRATE" || { echo "BUILD-ERROR: harness crate $CRATE does not build"; exit 2; }
exec "$(bin_of "$CRATE")" "$@"
