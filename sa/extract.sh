#!/bin/bash
# Builds the fact extractor if needed, runs it over /repo's current working
# tree (library and binary) and writes the facts into $1.
set -euo pipefail
out=$1
profile=${2:-}   # --release: the other profile
here=$(cd "$(dirname "$0")/.." && pwd)
build=${ROSTER_BUILD:-$here/build}
mkdir -p "$build" "$out"
exec 9>"$build/lock"
flock 9
. /opt/vp/env.sh >/dev/null 2>&1 || true
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS || true
src=${ROSTER_SRC:-/repo}   # another tree, for developing the checks
cd "$src"
tc=$(rustc --print sysroot)
if [ ! -x "$build/driver/debug/mirfacts" ] || [ "$here/driver/src/main.rs" -nt "$build/driver/debug/mirfacts" ]; then
  # compiled with the very toolchain which builds /repo
  (cd "$here/driver" && RUSTC="$tc/bin/rustc" CARGO_TARGET_DIR="$build/driver" \
     "$tc/bin/cargo" build --offline --locked -q 1>&2)
  touch "$build/driver/debug/mirfacts"
fi
# The wrapper is skipped for fresh artefacts: those of the workspace are dropped.
td=$build/check
CARGO_TARGET_DIR="$td" "$tc/bin/cargo" clean --offline --locked -q -p roster $profile >/dev/null 2>&1 || true
find "$out" -maxdepth 1 -name '*.json' -delete
LD_LIBRARY_PATH="$tc/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}" MIRFACTS_OUT="$out" \
  RUSTC_WORKSPACE_WRAPPER="$build/driver/debug/mirfacts" CARGO_TARGET_DIR="$td" CARGO_INCREMENTAL=0 \
  "$tc/bin/cargo" check --offline --locked -q --lib --bins $profile 1>&2
ls "$out"/*.json >/dev/null
