#!/bin/bash
# builds the small program beside this script against /repo and runs it:
# exit 0 if the behaviour it looks at is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/demo" && cp -r "$here/Cargo.toml" "$here/Cargo.lock" "$here/src" "$tmp/demo/" || exit 1
if [ -d "$here/shim" ]; then cp -r "$here/shim" "$tmp/demo/"; fi
cd "$tmp/demo" || exit 1
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export RUSTFLAGS="" CARGO_TARGET_DIR="$tmp/target"
cargo build --quiet --offline --locked 2>&1 | grep -E '^error' -A5
[ -x "$tmp/target/debug/demo" ] || { echo "build failed"; exit 1; }
timeout 100 "$tmp/target/debug/demo"
