#!/bin/bash
# builds the framework's own programs (checks rebuild them when /repo changed)
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
unset RUSTUP_TOOLCHAIN
(cd vx && cargo build --release --offline -q) || exit 1
(cd orc && cargo build --release --offline -q) || exit 1
mkdir -p out evidence
exit 0
