#!/bin/bash
# builds the extractor and the harness programs, offline
cd "$(dirname "$0")"
(cd tools/vx && env -u RUSTUP_TOOLCHAIN cargo build --offline -q) || exit 1
for h in harness/*/Cargo.toml; do
  (cd "$(dirname $h)" && CARGO_TARGET_DIR=/verif/harness/target RUSTUP_TOOLCHAIN=nightly-2026-03-10 RUSTFLAGS="--cap-lints allow" cargo build --offline -q) || exit 1
done
exit 0
