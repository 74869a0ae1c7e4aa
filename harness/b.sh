#!/bin/bash
# build; prints only problems of this crate
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=/verif/harness/target
cd /verif/harness && cargo build --offline 2>&1 --message-format short | grep -E "^(src/.*(error)|error|src/.*unused|.*could not)" | head -${1:-40}
