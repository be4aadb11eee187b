#!/bin/bash
# usage: tools/check.sh <crate> <property> [--thorough]
# Rebuilds the harness crate (and with it the lapex crates of /repo's working tree), then runs the check.
cd "$(dirname "$0")/.." || exit 2
. tools/env.sh
crate=$1; id=$2; shift 2
# cargo decides by modification time; touch nothing, but make sure that a changed tree with old
# timestamps is noticed: the hash of the sources is part of the build's fingerprint
. tools/fresh.sh
if ! cargo build -q --offline --manifest-path mc/$crate/Cargo.toml 1>&2; then
  echo "harness crate $crate does not build" >&2
  exit 2
fi
if ! cargo build -q --offline --locked --manifest-path /repo/Cargo.toml -p lapex-cli 1>&2; then
  echo "the command line does not build" >&2
  exit 2
fi
if [ "$id" = C22 ] && ! bash tools/ordered/build.sh > target/ordered.log 2>&1; then
  cat target/ordered.log >&2
  echo "the command line does not build with the ordered standard library" >&2
  exit 2
fi
exec ./target/debug/mc$crate "$id" "$@"
