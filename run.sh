#!/bin/bash
# run.sh <PROPERTY> [--replay <family> <index> <seed>]
# Builds the harness that decides the property from /repo's working tree and runs it.
set -u
cd /verif || exit 2
. /verif/env.sh
id="${1:?property id}"
shift
tool=()
case "$id" in
    # secrets followed through every instruction by memcheck
    K05 | N06 | S08 | R06)
        crate=chk-ct
        tool=(valgrind -q --error-limit=no "--log-file=${VERIF_VG_LOG:-/dev/null}")
        ;;
    K*) crate=chk-kem ;;
    N*) crate=chk-noise ;;
    S*) crate=chk-session ;;
    R*) crate=chk-rac ;;
    U* | T*) crate=chk-net ;;
    D*) crate=chk-node ;;
    *) echo "unknown property $id" >&2; exit 2 ;;
esac
log=/verif/target/build-$crate.log
mkdir -p /verif/target
build() {
    cargo build --offline --release --manifest-path "/verif/harness/$crate/Cargo.toml" >"$log" 2>&1
}
build_node() {
    # the programs under test, from /repo's working tree
    [ "$crate" = chk-node ] || return 0
    cargo build --offline --release --manifest-path /verif/harness/faults/Cargo.toml >>"$log" 2>&1 || return 1
    cargo build --offline -p vru-node --manifest-path /repo/Cargo.toml >>"$log" 2>&1
}
if ! build || ! build_node; then
    tail -n 60 "$log" >&2
    echo "build of $crate failed" >&2
    exit 2
fi
exec "${tool[@]}" "/verif/target/release/$crate" "$id" "$@"
