#!/bin/bash
# Builds the model checkers once, so that checks only rebuild what has changed.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg steit_mc -Awarnings"
(cd mc && cargo build --release --offline) || exit 1
(cd meta && cargo build --release --offline) || exit 1
python3 derive/check.py --warm || exit 1
