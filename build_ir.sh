#!/bin/bash
cd "$(dirname "$0")/harness" && cp /repo/Cargo.lock . && RUSTUP_TOOLCHAIN=stable RUSTFLAGS="--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp" cargo build --release --offline 2>&1 | grep -E "^error|^warning: unused" -A7
