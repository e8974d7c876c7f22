#!/bin/bash
cd /verif/harness/$1 && CARGO_TARGET_DIR=/verif/harness/target RUSTUP_TOOLCHAIN=nightly-2026-03-10 RUSTFLAGS="--cap-lints allow" cargo build --offline 2>&1 | grep -E "^error" -A12 | cut -c1-220 | head -${2:-60}
