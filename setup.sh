#!/bin/bash
# Builds the explorer (all the builds the checks use) from /repo's working tree.
cd "$(dirname "$0")/mc" || exit 2
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
cargo build --offline --locked --profile release &&
cargo build --offline --locked --profile dbg &&
cargo build --offline --locked --profile release --target-dir target-fast --features fast &&
cargo build --offline --locked --profile release --target-dir target-wire --features wire &&
cargo build --offline --locked --profile release --manifest-path /repo/Cargo.toml -p wolfram-parser --bin main --target-dir target-cli
