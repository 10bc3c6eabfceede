#!/bin/bash
# Runs demo.rs (integration test of keyhive_core) and *.append (file to append to a source file) on a scratch copy of $PWD.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
w=$(mktemp -d /tmp/khdemo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
for m in beekem keyhive_core keyhive_crypto test-utils; do cp -a "$repo/$m" "$w/$m" || exit 3; done
sed '/"keyhive_wasm\/\?",\?/d' "$repo/Cargo.toml" > "$w/Cargo.toml"
cp "$here/Cargo.lock.demo" "$w/Cargo.lock" || exit 3
[ -f "$here/core.append" ] && cat "$here/core.append" >> "$w/keyhive_core/src/lib.rs"
[ -f "$here/beekem.append" ] && cat "$here/beekem.append" >> "$w/beekem/src/lib.rs"
T=${DEMO_TARGET:-$w/target}
cd "$w" || exit 3
export CARGO_TARGET_DIR=$T
if [ -f "$here/demo.rs" ]; then
  mkdir -p "$w/keyhive_core/tests"; cp "$here/demo.rs" "$w/keyhive_core/tests/zz_demo.rs"
  timeout 280 cargo test --offline -q -p keyhive_core --features test_utils --test zz_demo -- --nocapture || exit 1
fi
if [ -f "$here/core.append" ]; then
  timeout 280 cargo test --offline -q -p keyhive_core --features test_utils --lib zz_demo -- --nocapture || exit 1
fi
if [ -f "$here/beekem.append" ]; then
  timeout 280 cargo test --offline -q -p beekem --features test_utils --lib zz_demo -- --nocapture || exit 1
fi
exit 0
