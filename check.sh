#!/bin/bash
# check.sh <property> quick|thorough : rebuilds the explorer from /repo's working tree and runs one property
ID=$1; TIER=${2:-quick}
cd "$(dirname "$0")/mc" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export MC_ROOT="$(cd .. && pwd)"
unset CARGO_TARGET_DIR RUSTFLAGS
build() { # profile, other cargo arguments
  cargo build --offline --locked --profile "$@" > /dev/null 2> build-$ID.log || { cat build-$ID.log >&2; echo "build failed" >&2; exit 2; }
  rm -f build-$ID.log
}
ulimit -v 24000000
case $ID in
  C01) build dbg; exec ./target/dbg/mc check "$ID" "$TIER" ;;
  C26) # another build of the parser, with the optional feature
    build release --target-dir target-fast --features fast; exec ./target-fast/release/mc check "$ID" "$TIER" ;;
  C27) # the kernel-facing library, against a stand-in for its link
    build release --target-dir target-wire --features wire; exec ./target-wire/release/mc check "$ID" "$TIER" ;;
  C34) # the command-line tool itself
    build release --manifest-path /repo/Cargo.toml -p wolfram-parser --bin main --target-dir target-cli; build release; exec ./target/release/mc check "$ID" "$TIER" ;;
  *) build release; exec ./target/release/mc check "$ID" "$TIER" ;;
esac
