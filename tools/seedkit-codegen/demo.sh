#!/bin/bash
# Run with cwd at the repository. Builds the macro crate from the working tree in a scratch directory.
REPO="$PWD"
KIT="$(cd "$(dirname "$0")" && pwd)/kit"
T="$(mktemp -d)"
trap 'find "$T" -delete' EXIT
cp -r "$KIT/." "$T/" || exit 99
for f in $(cd "$T" && find . -name '*.in'); do
  sed -e "s#@REPO@#$REPO#g" -e "s#@T@#$T#g" "$T/$f" > "$T/${f%.in}"
done
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS
cd "$T" && cargo build --offline -q || { echo "build failed"; exit 98; }
timeout 100 "$T/target/debug/demo"
