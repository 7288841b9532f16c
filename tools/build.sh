#!/bin/sh
# Builds the simulator from /repo's working tree. Prints nothing when there is nothing to say.
# A content hash decides what is stale, so that restored or copied trees with odd time stamps are rebuilt.
set -e
root=$(cd "$(dirname "$0")/.." && pwd)
cd "$root/sim"
mkdir -p target
exec 9>target/.lock
flock 9
sum=$(cd /repo/iOverlay && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1)
export CARGO_TARGET_DIR="$root/sim/target"
export RUSTC_WRAPPER="$root/tools/instrument.sh"
if [ "$(cat target/seq/.stamp 2>/dev/null)" != "$sum" ]; then
  mkdir -p target/seq
  rm -rf "$root/sim/target/seq/src"
  cp -r /repo/iOverlay/src target/seq/src
  sed 's/^name = "i_overlay"/name = "i_overlay_seq"/' /repo/iOverlay/Cargo.toml >target/seq/Cargo.toml
  touch target/seq/src/*.rs
  echo "$sum" >target/seq/.stamp
fi
if [ "$(cat target/.stamp 2>/dev/null)" != "$sum" ]; then
  rm -f target/.stamp
  cargo clean --offline --release -p i_overlay -p i_overlay_seq -p simwork >/dev/null 2>&1 || true
fi
if ! cargo build --offline --release >target/build.log 2>&1; then
  tail -40 target/build.log >&2
  echo "the simulator does not build" >&2
  exit 2
fi
echo "$sum" >target/.stamp
