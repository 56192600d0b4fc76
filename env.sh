# Environment of every build and run of the checkers.
export RUSTUP_TOOLCHAIN=nightly-2023-10-11
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$VERIF_DIR/target
export CARGO_INCREMENTAL=0
export VERIF_RUN_DIR=$VERIF_DIR/target/run
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTDOCFLAGS
mkdir -p "$VERIF_RUN_DIR"
