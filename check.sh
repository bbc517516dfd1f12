#!/bin/bash
# check.sh ID : build the monitors against /repo's current tree and run those of one property.
# exit 0 held / 1 VIOLATION / 2 check error
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_TARGET_DIR="${HV_TARGET:-$PWD/target}"
export CARGO_NET_OFFLINE=true
export RUST_BACKTRACE=0
log="$CARGO_TARGET_DIR/build.$$.log"
mkdir -p "$CARGO_TARGET_DIR"
if ! cargo build --offline --locked --quiet --manifest-path harness/Cargo.toml >"$log" 2>&1; then
  tail -60 "$log" >&2
  echo "check error: the harness does not build against /repo" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
if [ "$1" = "--build-only" ]; then exit 0; fi
if [ "$1" = C22 ]; then
  "$CARGO_TARGET_DIR/debug/hv" check C22
  a=$?
  if [ $a -gt 1 ]; then exit $a; fi
  python3 tools/c22.py
  b=$?
  if [ $a = 1 ] || [ $b = 1 ]; then exit 1; fi
  exit $b
fi
exec "$CARGO_TARGET_DIR/debug/hv" check "$1"
