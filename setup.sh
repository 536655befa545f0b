#!/bin/bash
# Builds every harness crate from the committed files, offline.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/env.sh"
for c in $CRATES; do
    echo "building $c"
    build_crate "$c" || exit 2
done
# the two configurations the generated programs of C14 link against
B="$ROOT/harness/icd/base/Cargo.toml"
W="$ROOT/harness/icd/work"
cargo build --offline --quiet --manifest-path "$B" --target-dir "$W/std" --features std || exit 2
cargo build --offline --quiet --manifest-path "$B" --target-dir "$W/nostd" || exit 2
