#!/bin/bash
# usage: check.sh <package> <property> [args]   - build the harness against /repo's working tree and run it
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
pkg="$1"; shift
log="$(mktemp)"
# a package may need others at run time (builds of the library with other features)
for p in $(cat "$pkg/HELPERS" 2>/dev/null) "$pkg"; do
  nightly=""; [ -f "$p/NIGHTLY" ] && nightly="+nightly"
  if ! cargo $nightly build --offline --release --manifest-path "$p/Cargo.toml" >"$log" 2>&1; then
    tail -40 "$log" >&2; rm -f "$log"; echo "build of $p failed" >&2; exit 2
  fi
done
rm -f "$log"
exec "$CARGO_TARGET_DIR/release/$pkg" "$@"
