#!/bin/bash
# Builds every harness once (offline); the checks rebuild what they need by themselves.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=0
set -e
for c in mc-gen mc-codegen mc-grib mc-cli shadow/cli; do
  [ -f "$c/Cargo.toml" ] && (cd "$c" && cargo build --offline --locked -q)
done
mkdir -p evidence
