#!/bin/bash
# Builds the harness and the support crate, so that checks start faster.
cd "$(dirname "$0")" || exit 2
VERIF="$PWD"; export VERIF
. ./env.sh
(cd harness && CARGO_TARGET_DIR="$VERIF/target/harness" cargo build --offline --locked -q) || exit 2
(cd e2e-stable && CARGO_TARGET_DIR="$VERIF/target/e2e-stable" cargo build --offline --locked -q) || exit 2
(cd e2e && CARGO_TARGET_DIR="$VERIF/target/e2e" cargo build --offline --locked -q) || exit 2
