#!/bin/bash
# Build the analysis tools offline from the committed files.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
VERIF=$(dirname "$HERE")
mkdir -p "$VERIF/.work" "$VERIF/evidence"
CARGO_TARGET_DIR=$VERIF/.work/mirdump cargo +nightly build --release --offline -q \
  --manifest-path "$HERE/mirdump/Cargo.toml"
CARGO_TARGET_DIR=$VERIF/.work/synq cargo +nightly build --release --offline -q \
  --manifest-path "$HERE/synq/Cargo.toml"
python3 -c "import json, sys; json.load(open('$VERIF/MANIFEST.json'))"
echo setup done
