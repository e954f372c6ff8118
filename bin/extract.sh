#!/bin/bash
# Type-checks /repo's current tree with the driver and writes the facts to $1 (default build/facts).
# The facts are a function of the sources: they are reused while the sources' hash is unchanged.
set -e
. "$(dirname "$0")/env.sh"
B=$VERIF/build
OUT="${1:-$B/facts}"
if [ ! -x "$B/driver" ] || [ ! -f "$B/patched/done" ]; then "$VERIF/bin/setup.sh"; [ "$OUT" = "$B/facts" ] && exit 0; fi
exec 9>"$B/.lock"; flock 9
T="${VERIF_TARGET:-$B/target}"
mkdir -p "$OUT"
cd "$REPO"
H="$( (find src Cargo.toml Cargo.lock build.rs .cargo rust-toolchain rust-toolchain.toml -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum; sha256sum "$B/driver"; echo "$REPO") | sha256sum | cut -d' ' -f1)"
if [ "$(cat "$OUT/.hash" 2>/dev/null)" = "$H" ] && [ -s "$OUT/execgraph.json" ] && [ -s "$OUT/execgraph_remote.json" ]; then exit 0; fi
find "$OUT" -maxdepth 1 \( -name '*.json' -o -name .hash \) -delete
for d in "$T/debug/build" "$T/debug/.fingerprint"; do [ -d "$d" ] && find "$d" -maxdepth 1 \( -name execgraph -o -name "execgraph-*" \) -exec rm -rf {} + ; done
export RUSTC_WRAPPER="$VERIF/driver/wrap.sh" RUSTC_WORKSPACE_WRAPPER="$B/driver" EXECGRAPH_FACTS="$OUT"
cargo check --lib --bins --locked --offline --target-dir "$T" >"$OUT/cargo.log" 2>&1 || { tail -60 "$OUT/cargo.log" >&2; exit 3; }
[ -s "$OUT/execgraph.json" ] && [ -s "$OUT/execgraph_remote.json" ] && echo "$H" >"$OUT/.hash"
