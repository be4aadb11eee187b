#!/bin/bash
# Builds the lapex command line of /repo's working tree with a standard library whose hash maps ask for their order
# (patch.py) into target/ordered. Sourced environment: tools/env.sh. Run from the top of /verif.
here=$(cd "$(dirname "$0")" && pwd)
O=$PWD/target/ordered
mkdir -p "$O"
lib=$(rustc --print sysroot)/lib/rustlib/src/rust/library
sum=$( (rustc -vV; sha256sum "$here"/patch.py "$here"/wrap.sh) | sha256sum)
if [ "$(cat "$O/.lib-sum" 2>/dev/null)" != "$sum" ]; then
  [ -e "$O/library" ] && rm -rf "$O/library"
  [ -e "$O/build" ] && rm -rf "$O/build"
  cp -r "$lib" "$O/library" && python3 "$here/patch.py" "$O/library" || exit 1
  echo "$sum" > "$O/.lib-sum"
fi
sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$O/.repo-sum" 2>/dev/null)" != "$sum" ]; then
  for d in "$O"/build/debug/.fingerprint/lapex* "$O"/build/x86_64-unknown-linux-gnu/debug/.fingerprint/lapex*; do
    [ -e "$d" ] && rm -rf "$d"
  done
  echo "$sum" > "$O/.repo-sum"
fi
export RUSTC_WRAPPER="$here/wrap.sh" CARGO_TARGET_DIR="$O/build" CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0
export __CARGO_TEST_CHANNEL_OVERRIDE_DO_NOT_USE_THIS=nightly __CARGO_TESTS_ONLY_SRC_ROOT="$O/library"
cargo build -q --offline --locked -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu --manifest-path /repo/Cargo.toml -p lapex-cli
