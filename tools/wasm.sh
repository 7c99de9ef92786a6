#!/bin/bash
# Builds mc-wasm for wasm32-unknown-unknown. The toolchain comes without a standard library for this
# target, so that is built first, from the toolchain's own sources, into target/wasm-std.
cd "$(dirname "$0")/.." || exit 2
V="$PWD"
T="$V/target"
S="$(rustc --print sysroot)"
L="$S/lib/rustlib/src/rust/library"
W=wasm32-unknown-unknown
D="$T/wasm-std/$(rustc -V | cksum | cut -d' ' -f1)"
if [ ! -f "$D/made" ]; then
  mkdir -p "$D/src" || exit 2
  printf '#![feature(no_core)]\n#![no_core]\n' > "$D/src/lib.rs"
  cp "$L/Cargo.lock" "$D/" || exit 2
  cat > "$D/Cargo.toml" <<X
[package]
name = "wasm-std"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies.std]
path = "$L/std"
features = ["panic-unwind"]
[dependencies.panic_abort]
path = "$L/panic_abort"
[patch.crates-io]
rustc-std-workspace-core = { path = "$L/rustc-std-workspace-core" }
rustc-std-workspace-alloc = { path = "$L/rustc-std-workspace-alloc" }
rustc-std-workspace-std = { path = "$L/rustc-std-workspace-std" }
windows-sys = { path = "$L/windows-sys" }
windows-link = { path = "$L/windows_link" }
[profile.release]
panic = "abort"
X
  (cd "$D" && RUSTC_BOOTSTRAP=1 __CARGO_DEFAULT_LIB_METADATA=w RUSTFLAGS="-Zforce-unstable-if-unmarked -Cpanic=abort" \
    cargo build -q --release --offline --target $W --target-dir "$D/target" \
    --config 'source.crates-io.replace-with="vendored"' --config "source.vendored.directory=\"$L/vendor\"" 2>"$D/log") || { cat "$D/log" >&2; exit 3; }
  mkdir -p "$D/sys/lib/rustlib/$W/lib"
  cp "$D/target/$W/release/deps/"*.rlib "$D/sys/lib/rustlib/$W/lib/" && touch "$D/made"
fi
cd mc-wasm && RUSTFLAGS="--sysroot=$D/sys -Clinker=$S/lib/rustlib/x86_64-unknown-linux-gnu/bin/rust-lld" \
  cargo build -q --release --offline --locked --target $W
