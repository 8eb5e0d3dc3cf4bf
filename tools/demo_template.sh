#!/bin/bash
# Appends vdemo.rs (a test module) to the source file named on its first line, in a
# scratch copy of the buildable part of the repository, and runs it there.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
S="$(mktemp -d)" || exit 3
trap 'rm -rf "$S"' EXIT
cp -a /opt/vp/view "$S/view" && cp -a /opt/vp/target "$S/target" || exit 3
export CARGO_TARGET_DIR="$S/target"
f="$(sed -n '1s,^// append to ,,p' "$here/vdemo.rs")"
[ -f "$S/view/$f" ] || exit 3
cat "$here/vdemo.rs" >>"$S/view/$f"
cd "$S/view" && timeout 280 cargo test --lib --offline vdemo >"$S/log" 2>&1
rc=$?
tail -n 25 "$S/log"
grep -q "test result: ok. [1-9]" "$S/log" || { [ $rc -eq 0 ] && rc=3; }
exit $rc
