#!/bin/bash
# Type-check the buildable crates of /repo's working tree with the MIR driver.
# usage: mir.sh OUTDIR [attr]   (writes OUTDIR/<crate>.json; attr: the probe of the attribute macros instead)
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
VERIF=$(dirname "$HERE")
REPO=${VERIF_REPO:-/repo}
OUT=$1
DRV=$VERIF/.work/mirdump/release/mirdump
if [ ! -x "$DRV" ] || [ "$HERE/mirdump/src/main.rs" -nt "$DRV" ]; then
  CARGO_TARGET_DIR=$VERIF/.work/mirdump cargo +nightly build --release --offline -q \
    --manifest-path "$HERE/mirdump/Cargo.toml" >&2 || exit 3
fi
W=$(mktemp -d "$VERIF/.work/ws.XXXXXX") || exit 3
trap 'rm -rf "$W"' EXIT
cp "$HERE/ws/Cargo.toml.in" "$W/Cargo.toml"
cp "$HERE/ws/Cargo.lock.in" "$W/Cargo.lock"
for c in monoruby_attr rubymap hashbrown ruby_traits; do ln -s "$REPO/$c" "$W/$c"; done
PKGS="-p rubymap -p hashbrown -p ruby_traits"
if [ "${2:-}" = attr ]; then
  mkdir -p "$W/attrprobe" "$OUT"
  cp "$HERE/attrprobe/Cargo.toml" "$W/attrprobe/"
  python3 "$HERE/attrprobe/gen.py" "$REPO" "$W/attrprobe/src/lib.rs" "$OUT/declared.json" || exit 3
  sed -i 's/^members = \[/&"attrprobe", /' "$W/Cargo.toml"
  PKGS="-p attrprobe"
fi
SYS=$(rustc +nightly --print sysroot)
cd "$W" || exit 3
env -u RUSTFLAGS LD_LIBRARY_PATH="$SYS/lib" RUSTC_WORKSPACE_WRAPPER="$DRV" \
  MIRDUMP_OUT="$OUT" MIRDUMP_CRATES="hashbrown,rubymap,ruby_traits,attrprobe" \
  CARGO_TARGET_DIR="$W/target" RUSTUP_TOOLCHAIN=nightly \
  cargo +nightly check --offline -q $PKGS >"$W/log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then tail -40 "$W/log" >&2; exit 3; fi
exit 0
