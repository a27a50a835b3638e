#!/bin/bash
# Builds the framework from the committed files; everything lands in /verif/build.
cd "$(dirname "$0")/.." || exit 1
export PATH="$HOME/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
mkdir -p build evidence
(cd tools/rx && CARGO_TARGET_DIR=/verif/build/rx cargo build --release --offline --locked -q) || exit 1
for h in harness/*/; do
  n=$(basename $h)
  [ -f $h/Cargo.toml ] && [ -f $h/src/main.rs ] && { (cd $h && CARGO_TARGET_DIR=/verif/build/$n cargo build --offline --locked -q 2>/dev/null) || echo "note: harness $n does not build"; }
done
exit 0
