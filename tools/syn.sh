#!/bin/bash
# Parse the interpreter crate of /repo's working tree, or the sources under DIR: syn.sh OUT.json [DIR]
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
VERIF=$(dirname "$HERE")
REPO=${VERIF_REPO:-/repo}
BIN=$VERIF/.work/synq/release/synq
if [ ! -x "$BIN" ] || [ "$HERE/synq/src/main.rs" -nt "$BIN" ]; then
  CARGO_TARGET_DIR=$VERIF/.work/synq cargo +nightly build --release --offline -q \
    --manifest-path "$HERE/synq/Cargo.toml" >&2 || exit 3
fi
"$BIN" "$1" "${2:-$REPO/monoruby/src}" || exit 3
