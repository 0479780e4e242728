#!/bin/bash
# builds the replay crate once (every check rebuilds it from /repo's current tree anyway)
cd "$(dirname "$0")/.." || exit 1
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/replay/target RUSTFLAGS= cargo build --offline --release --manifest-path replay/Cargo.toml 2>&1 | tail -2
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/replay/target RUSTFLAGS= cargo build --offline --profile checked --manifest-path replay/Cargo.toml 2>&1 | tail -2
python3 tool/extract.py /repo/src --erase > normcheck/src/lib.rs 2>/dev/null
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/replay/target RUSTFLAGS= cargo build --offline --release --manifest-path normcheck/Cargo.toml 2>&1 | tail -2
verus --version | head -3
