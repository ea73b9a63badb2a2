#!/bin/bash
# Builds the harness against /repo's current tree (offline).
set -e
cd "$(dirname "$0")/.."
python3 tools/sync_tree.py
cd harness
CARGO_TARGET_DIR=../.work/hb RUSTFLAGS="-Awarnings --cfg snapspec" CARGO_NET_OFFLINE=true cargo build --offline
