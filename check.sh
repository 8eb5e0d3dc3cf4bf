#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Builds the analyser if needed (offline) and applies it to /repo's working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
export CARGO_NET_OFFLINE=true
bin="$here/analyzer/target/release/vg"
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer/src" "$here/analyzer/Cargo.toml" -newer "$bin" -print -quit)" ]; then
  (cd "$here/analyzer" && cargo build --release --offline >"$here/analyzer/build.log" 2>&1) || { cat "$here/analyzer/build.log" >&2; exit 2; }
fi
exec "$bin" check "$1" --repo "${VG_REPO:-/repo}" --verif "$here" --tier "${2:-${VERIF_TIER:-quick}}"
