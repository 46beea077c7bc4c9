#!/bin/bash
# Checks the tools and builds the native driver once, so that later builds can only fail for /repo's sake.
set -e
cd "$(dirname "$0")/.."
command -v cargo >/dev/null; command -v verus >/dev/null; command -v cargo-kani >/dev/null
cd contracts
CARGO_NET_OFFLINE=true cargo build --offline --bin replay --target-dir ../target/setup
