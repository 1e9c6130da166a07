export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="-Awarnings"
export VERIF_DIR=$PWD
