#!/bin/bash
# RUSTC_WRAPPER for dependencies: redirects two pinned crates to copies patched by setup.sh
# (they do not compile / do not resolve on the nightly toolchain otherwise).  Everything else as is.
P="$(cd "$(dirname "$0")/.." && pwd)/build/patched"
args=()
for a in "$@"; do
  case "$a" in
    */time-0.3.28/src/lib.rs) a=$P/time/src/lib.rs;;
    */advisory-lock-0.3.0/src/lib.rs) a=$P/advisory-lock/src/lib.rs;;
  esac
  args+=("$a")
done
exec "${args[@]}"
