#!/bin/bash
# ./check.sh ID [quick|thorough]   builds the harness that decides ID from /repo's working tree, runs it
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS
id="$1"
[ -n "$2" ] && export VERIF_TIER="$2"
case "$id" in
  C25|C26) crate=mc-gen ;;
  C27|C28) crate=mc-codegen ;;
  C29|C30|C31) crate=mc-cli ;;
  *) crate=mc-grib; only="--no-default-features --features proj,$(echo "$id" | tr C c)" ;;
esac
case "$crate" in
  mc-cli) (cd shadow/cli && cargo build --offline --locked -q) || { echo "build of gribber failed" >&2; exit 3; } ;;
esac
# C37 compares with an optimised build that lacks the optional features, C38 with a 32-bit one
case "$id" in
  C37) (cd mc-grib && cargo build --release --offline --locked -q --no-default-features --features c37) || { echo "release build of mc-grib failed" >&2; exit 3; } ;;
  C38) tools/wasm.sh || { echo "build of mc-wasm failed" >&2; exit 3; } ;;
esac
(cd "$crate" && cargo build --offline --locked -q $only) || { echo "build of $crate failed" >&2; exit 3; }
exec "target/debug/$crate" check "$id"
