#!/bin/bash
# Exit 0: the scenario behaves as it should. Nonzero: it does not.
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=1
export RUSTC_WRAPPER= RUSTFLAGS= RUST_BACKTRACE=0
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
cp -r kit/. "$D" && cp demo.rs "$D/src/demo.rs" || exit 2
# the crates the repository's build has compiled already are reused
CARGO_TARGET_DIR=/repo/target/partial cargo run --quiet --manifest-path "$D/Cargo.toml" --offline --locked
