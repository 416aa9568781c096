#!/bin/bash
# check.sh <property>: rebuild the harness against /repo's working tree, then explore the property.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true MC_ROOT="$here"
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence"
(
  flock 9
  # decide by content, not by time stamps, whether the library has to be rebuilt
  sum="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$(cat "$CARGO_TARGET_DIR/xecs.sum" 2>/dev/null)" != "$sum" ]; then
    cargo clean --release --offline --manifest-path "$here/harness/Cargo.toml" -p xecs >/dev/null 2>&1
    rm -f "$CARGO_TARGET_DIR/xecs.sum"
  fi
  if ! cargo build --release --offline --locked --manifest-path "$here/harness/Cargo.toml" >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    tail -40 "$CARGO_TARGET_DIR/build.log"
    exit 3
  fi
  echo "$sum" >"$CARGO_TARGET_DIR/xecs.sum"
) 9>"$CARGO_TARGET_DIR/lock" || { echo "error of the check: the harness does not build"; exit 3; }
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/mc" check "$1"
