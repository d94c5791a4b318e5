#!/bin/bash
# (Re)build the fact base of /repo's current tree: MIR of every body of the posy crate.
# Usage: facts.sh OUT.json     (cached by content hash of the analysed sources and of the driver)
set -euo pipefail
V=$(cd "$(dirname "$0")" && pwd)
REPO=${SA_REPO:-/repo}
B=${SA_BUILD:-$V/build}
mkdir -p "$B"
OUT=$B/facts.json
exec 9>"$B/.lock"; flock 9
T=$(rustc +nightly --print sysroot)
DRV=$B/driver-bin
DH=$(sha256sum "$V/driver/main.rs" | cut -d' ' -f1)
if [ ! -x "$DRV" ] || [ "$(cat "$DRV.hash" 2>/dev/null)" != "$DH" ]; then
  rustc +nightly --edition 2021 -O "$V/driver/main.rs" -o "$DRV" 1>&2
  echo "$DH" > "$DRV.hash"
fi
H=$( { echo "$DH"; cd "$REPO"; cat Cargo.toml Cargo.lock; find src -type f -print0 | sort -z | xargs -0 sha256sum; [ -f build.rs ] && cat build.rs; true; } | sha256sum | cut -d' ' -f1)
if [ -s "$OUT" ] && [ "$(cat "$OUT.hash" 2>/dev/null)" = "$H" ]; then exit 0; fi
rm -f "$OUT" "$OUT.hash"
TD=$B/target
rm -rf "$TD"/debug/.fingerprint/posy-* "$TD"/debug/build/posy "$TD"/debug/build/posy-* "$TD"/debug/incremental
cd "$REPO"
SA_SYSROOT=$T SA_DRIVER=$DRV SA_FACTS_OUT=$OUT.tmp RUSTC=$V/driver/rustc-shim.sh \
  RUSTFLAGS="-Zallow-features= -Awarnings" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$TD CARGO_INCREMENTAL=0 \
  cargo +nightly check --offline --quiet --locked --bin posy 1>&2
[ -s "$OUT.tmp" ] || { echo "facts.sh: no facts were produced" >&2; exit 3; }
mv "$OUT.tmp" "$OUT"
echo "$H" > "$OUT.hash"
