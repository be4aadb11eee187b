#!/bin/bash
# cargo runs rustc through this: unstable options are allowed, but build scripts that probe for a nightly compiler find none
for a in "$@"; do [ "$a" = --crate-name ] && export RUSTC_BOOTSTRAP=1; done
exec "$@"
