#!/bin/bash
# builds one binary of the harness against /repo's working tree; output in harness/target
set -e
cd "$(dirname "$0")/../harness"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export RUSTFLAGS="" CARGO_TARGET_DIR="$PWD/target"
# cargo notices changes by modification time; compare contents as well
sum=$(find /repo/contracts /repo/packages /repo/wasm /repo/Cargo.toml -name target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ -d target ] && [ "$(cat target/repo.sum 2>/dev/null)" != "$sum" ]; then
  cargo clean --release --offline --locked --quiet -p oraiswap-v3 -p oraiswap-v3-wasm -p decimal -p decimal-core -p traceable_result
fi
for b in "$@"; do
  cargo build --release --offline --locked --quiet --bin "$b"
done
echo "$sum" > target/repo.sum
