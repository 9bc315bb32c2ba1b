#!/bin/bash
# builds the simulator against /repo's working tree (offline)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER="$here/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# the content of the tree decides what is rebuilt, not its timestamps
sum="$(cd /repo && find . \( -name .git -o -name target \) -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 | sort -z | xargs -0 sha256sum | cat - "$here/rustc-wrap.sh" | sha256sum | cut -c1-32)"
if [ "$(cat target/tree.sum 2>/dev/null)" != "$sum" ]; then
  for d in target/release/.fingerprint; do
    if [ -d "$d" ]; then find "$here/$d" -maxdepth 1 \( -name 'ifc_rs*' -o -name 'ifcsim*' \) -exec rm -rf {} +; fi
  done
fi
cargo build --release --offline --locked -q
echo "$sum" > target/tree.sum
