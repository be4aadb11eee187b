#!/bin/bash
# Builds every harness crate and the lapex command line into /verif/target.
cd "$(dirname "$0")/.." || exit 2
. tools/env.sh
. tools/fresh.sh
for c in mc/*/; do
  c=$(basename $c); [ $c = core ] && continue
  cargo build -q --offline --manifest-path mc/$c/Cargo.toml || rc=1
done
cargo build -q --offline --locked --manifest-path /repo/Cargo.toml -p lapex-cli || rc=1
bash tools/ordered/build.sh > target/ordered.log 2>&1 || { cat target/ordered.log >&2; rc=1; }
exit ${rc:-0}
