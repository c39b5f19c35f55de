#!/bin/bash
# check.sh <property> <quick|thorough>   or   check.sh replay <file>
cd "$(dirname "$0")" || exit 2
VERIF="$PWD"; export VERIF
. ./env.sh
export CARGO_TARGET_DIR="$VERIF/target/harness"
# always from /repo's working tree, whatever its time stamps say
(cd harness && cargo clean --offline --locked -q -p leptos-mview-core 2>/dev/null
 cargo build --offline --locked -q --bin check) || { echo "building the harness failed" >&2; exit 2; }
unset CARGO_TARGET_DIR
exec ./target/harness/debug/check "$@"
