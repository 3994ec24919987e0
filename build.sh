#!/bin/bash
# Build the harness (and with it /repo's library) offline.
here=${here:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
export RUSTUP_TOOLCHAIN=1.88-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS
crate() {
  local log status
  log=$(mktemp)
  (cd "$here/$1" && cargo build --release --offline >"$log" 2>&1)
  status=$?
  if [ $status != 0 ]; then
    tail -40 "$log" >&2
    echo "error: $1 does not build" >&2
  fi
  rm -f "$log"
  return $status
}
# The bindings are needed by one property only, and setup goes on without them.
crate harness && case "${property-setup}" in
  C30) crate jsbind ;;
  setup) crate jsbind || true ;;
esac
