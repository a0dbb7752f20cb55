#!/bin/bash
# Builds the harness crates once, so that a broken toolchain shows up before any check.
cd "$(dirname "$0")" || exit 1
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=nightly-2025-12-19 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
for c in de sr wasm; do
  [ -f harness/$c/Cargo.toml ] || continue
  cargo build --offline --manifest-path harness/$c/Cargo.toml --target-dir "$PWD/target/$c" || exit 1
done
