#!/bin/bash
# builds every harness once
cd /verif || exit 2
. /verif/env.sh
rc=0
for c in /verif/harness/chk-* /verif/harness/faults; do
    [ -f "$c/Cargo.toml" ] || continue
    cargo build --offline --release --manifest-path "$c/Cargo.toml" || rc=1
done
# the programs that the D checks run
cargo build --offline -p vru-node --manifest-path /repo/Cargo.toml || rc=1
exit $rc
