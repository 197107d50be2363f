#!/bin/bash
# developer loop: plain incremental build + run, no content hashing
cd /verif/harness && export CARGO_TARGET_DIR=/verif/target VF_ROOT=/verif RUSTFLAGS="--cap-lints warn --cfg vf_hooks"
b=$1; shift
cargo build --offline --bin $b 2>&1 | grep -E '^error' -A12 | head -${ERRL:-60}
exec $CARGO_TARGET_DIR/debug/$b "$@"
