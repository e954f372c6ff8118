#!/bin/bash
# Builds the framework from the committed files: the driver, the patched dependency copies and the
# dependency metadata that `cargo check` of /repo needs.  Idempotent; everything goes to build/.
set -e
. "$(dirname "$0")/env.sh"
B=$VERIF/build
mkdir -p "$B/patched"
exec 9>"$B/.lock"; flock 9
R="$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/time-0.3.28 | head -1)"; R="$(dirname "$R")"
if [ ! -f "$B/patched/done" ]; then
  mkdir -p "$B/patched/time" "$B/patched/advisory-lock"
  cp -r "$R/time-0.3.28/." "$B/patched/time/"
  sed -i "83s/let items = /let items: Box<[format_item::Item<'_>]> = /" "$B/patched/time/src/format_description/parse/mod.rs"
  cp -r "$R/advisory-lock-0.3.0/." "$B/patched/advisory-lock/"
  sed -i 's|^    fn unlock(&self) -> Result<(), FileLockError>;|&\n    fn adv_lock(\&self, m: FileLockMode) -> Result<(), FileLockError> { AdvisoryFileLock::lock(self, m) }\n    fn adv_try_lock(\&self, m: FileLockMode) -> Result<(), FileLockError> { AdvisoryFileLock::try_lock(self, m) }|' "$B/patched/advisory-lock/src/lib.rs"
  touch "$B/patched/done"
fi
if [ ! -x "$B/driver" ] || [ "$VERIF/driver/main.rs" -nt "$B/driver" ]; then
  rustc -O --edition 2024 "$VERIF/driver/main.rs" -o "$B/driver.tmp" -C link-arg=-Wl,-rpath,"$SYSROOT/lib" 2>"$B/driver.log" || { cat "$B/driver.log" >&2; exit 3; }
  mv "$B/driver.tmp" "$B/driver"
fi
flock -u 9
"$VERIF/bin/extract.sh"
