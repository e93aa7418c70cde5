#!/bin/bash
# Warms the build directories; every check builds what it needs again from /repo's current tree.
ROOT="$(cd "$(dirname "$0")" && pwd)"
cd "$ROOT/harness" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$ROOT/harness/target" cargo +stable build --offline --release -q --lib
