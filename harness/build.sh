#!/bin/sh
cd "$(dirname "$0")" && RUSTFLAGS="--cfg verif_hooks -Awarnings" CARGO_TARGET_DIR=/verif/build/harness cargo build --offline "$@"
