#!/bin/bash
# Compares the stand-in lock with the real parking_lot (see lockconf/src/main.rs); no part of the checks.
cd "$(dirname "$0")/../lockconf" || exit 2
CARGO_TARGET_DIR=${TMPDIR:-/tmp}/lockconf-target cargo build --offline --release -q || exit 2
exec "${TMPDIR:-/tmp}/lockconf-target/release/lockconf" "${1:-6}" "${2:-64}"
