#!/bin/bash
# exit 0: the property holds on this scenario; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$w"' EXIT
cp -r "$here/src" "$w/src" && cp "$here/Cargo.toml.in" "$w/Cargo.toml" && cp "$here/Cargo.lock.in" "$w/Cargo.lock" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export LIGHTYEAR_VERIF_HOOKS="$here/hooks" RUSTFLAGS="--cfg lightyear_verif"
export CARGO_TARGET_DIR="$w/target" CARGO_INCREMENTAL=0
cd "$w" && cargo build --offline -q 2>"$w/log" || { tail -40 "$w/log"; exit 3; }
timeout 120 "$w/target/debug/demo"
