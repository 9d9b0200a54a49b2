#!/bin/bash
# Builds the harness once, offline, to show that the toolchain and the dependencies are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
cargo build -q --offline --manifest-path harness/Cargo.toml --lib
