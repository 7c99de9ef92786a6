#!/bin/bash
# Run with cwd at the repository. Builds the library (and gribber, when the demonstration wants it)
# from the working tree against the stand-in code tables beside this file, in a scratch directory.
REPO="$PWD"
KIT="$(cd "$(dirname "$0")" && pwd)/kit"
T="$(mktemp -d)"
trap 'find "$T" -delete' EXIT
cp -r "$KIT/." "$T/" || exit 99
for f in $(cd "$T" && find . -name '*.in'); do
  sed "s#@REPO@#$REPO#g" "$T/$f" > "$T/${f%.in}"
done
# the library's package directory holds the code tables
mv "$T/def" "$T/grib/def"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS
if grep -q GRIBBER "$T/main.rs"; then
  (cd "$T/cli" && cargo build --offline -q) || { echo "build of gribber failed"; exit 98; }
  export GRIBBER="$T/target/debug/gribber"
fi
P=debug O=
if grep -q '^// RELEASE' "$T/main.rs"; then P=release O=--release; fi
if grep -q '^// BARE' "$T/main.rs"; then sed -i 's#path = "../grib"#path = "../grib", default-features = false#' "$T/demo/Cargo.toml"; fi
if grep -q '^// WASM' "$T/main.rs"; then
  sed -i 's#path = "../grib"#path = "../grib", default-features = false#' "$T/demo/Cargo.toml"
  bash "$T/wasm.sh" "$T"
  exit
fi
(cd "$T/demo" && cargo build --offline -q $O) || { echo "build failed"; exit 98; }
cd "$T" && timeout 100 "$T/target/$P/demo"
