# Toolchain settings shared by the build and the checks.
export HOME=/root LANG=${LANG:-C.UTF-8}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER= RUSTFLAGS= RUST_BACKTRACE=0
export CARGO_TARGET_DIR=/verif/target
