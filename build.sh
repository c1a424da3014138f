#!/bin/bash
# builds the harness (and the csvpp binary) from /repo's working tree
cd "$(dirname "$0")/harness" || exit 2
export RUSTUP_TOOLCHAIN=1.82.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${VERIF_TARGET:-$(cd .. && pwd)/target}"
export RUSTFLAGS="--cap-lints allow --cfg csvpp_verif"
mkdir -p "$CARGO_TARGET_DIR"
export VERIF_COV="$CARGO_TARGET_DIR/cov.o"
if [ ! -e "$VERIF_COV" ] || [ cov.c -nt "$VERIF_COV" ]; then
    cc -O2 -c cov.c -o "$VERIF_COV.$$" && mv "$VERIF_COV.$$" "$VERIF_COV" || exit 2
fi
export RUSTC_WRAPPER="$PWD/rustc.sh"
exec cargo build --offline --quiet
