#!/bin/bash
# Demonstration: copies /repo's current sources to a scratch directory, appends the test
# module beside this file to the named source file, and runs only that test there.
# usage (inside seeded/<id>/): FILE=<src file> in the next line
set -u
FILE=@FILE@
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root RUSTUP_TOOLCHAIN=1.70 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=1
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH CARGO_TERM_COLOR=never RUSTC_WRAPPER= INSTA_UPDATE=no
w=$(mktemp -d /tmp/vpdemo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/repo" "$w/target/debug" "$w/tmp"
(cd /repo && tar cf - --exclude=./target --exclude=./.git .) | tar xf - -C "$w/repo"
for d in .fingerprint build deps; do cp -a "/repo/target/debug/$d" "$w/target/debug/" || exit 3; done
cat "$here/demo.rs" >> "$w/repo/$FILE"
cd "$w/repo" || exit 3
export CARGO_TARGET_DIR="$w/target" TMPDIR="$w/tmp"
timeout 280 cargo test --offline vpdemo -- --test-threads 4 > "$w/log" 2>&1
rc=$?
tail -n 40 "$w/log"
# at least one demonstration test must really have run
grep -q "^test .*vpdemo.* \.\.\. " "$w/log" || { echo "no demo test ran"; exit 4; }
exit $rc
