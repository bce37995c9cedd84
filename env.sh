# common environment of every command of this framework (sourced)
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/verif/target
export VERIF_DIR=/verif
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
