#!/bin/bash
# builds the harness against /repo's current working tree
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
exec cargo build --offline -q
