#!/bin/bash
# builds every harness package (checks rebuild what changed)
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
for p in h_*/ x_*/; do
  nightly=""; [ -f "$p/NIGHTLY" ] && nightly="+nightly"
  cargo $nightly build --offline --release --manifest-path "$p/Cargo.toml" || exit 1
done
