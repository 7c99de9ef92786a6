#!/bin/bash
# wasm.sh DIR: builds DIR/demo for wasm32-unknown-unknown (with a standard library made from the
# toolchain's sources, in DIR) and runs it under node.
T="$1"; S="$(rustc --print sysroot)"; L="$S/lib/rustlib/src/rust/library"; W=wasm32-unknown-unknown; D="$T/wasm-std"
mkdir -p "$D/src" "$D/sys/lib/rustlib/$W/lib"
printf '#![feature(no_core)]\n#![no_core]\n' > "$D/src/lib.rs"
cp "$L/Cargo.lock" "$D/"
cat > "$D/Cargo.toml" <<X
[package]
name = "wasm-std"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies.std]
path = "$L/std"
features = ["panic-unwind"]
[dependencies.panic_abort]
path = "$L/panic_abort"
[patch.crates-io]
rustc-std-workspace-core = { path = "$L/rustc-std-workspace-core" }
rustc-std-workspace-alloc = { path = "$L/rustc-std-workspace-alloc" }
rustc-std-workspace-std = { path = "$L/rustc-std-workspace-std" }
windows-sys = { path = "$L/windows-sys" }
windows-link = { path = "$L/windows_link" }
[profile.release]
panic = "abort"
X
(cd "$D" && RUSTC_BOOTSTRAP=1 __CARGO_DEFAULT_LIB_METADATA=w RUSTFLAGS="-Zforce-unstable-if-unmarked -Cpanic=abort" \
  cargo build -q --release --offline --target $W --target-dir "$D/target" \
  --config 'source.crates-io.replace-with="vendored"' --config "source.vendored.directory=\"$L/vendor\"") || exit 98
cp "$D/target/$W/release/deps/"*.rlib "$D/sys/lib/rustlib/$W/lib/" || exit 98
(cd "$T/demo" && CARGO_PROFILE_RELEASE_PANIC=abort RUSTFLAGS="--sysroot=$D/sys -Clinker=$S/lib/rustlib/x86_64-unknown-linux-gnu/bin/rust-lld" \
  cargo build -q --release --offline --target $W) || exit 98
cat > "$T/run.mjs" <<'X'
import fs from 'fs';
const m = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const imports = {};
for (const i of WebAssembly.Module.imports(m)) (imports[i.module] ??= {})[i.name] = () => { throw new Error(i.name); };
new WebAssembly.Instance(m, imports).exports.main(0, 0);
console.log('done');
X
timeout 100 node "$T/run.mjs" "$T/target/$W/release/demo.wasm"
