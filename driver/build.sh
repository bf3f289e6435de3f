#!/bin/bash
# builds the analyser into $1
set -e
cd "$(dirname "$0")"
export RUSTFLAGS="-C link-arg=-Wl,-rpath,$(rustc +nightly --print sysroot)/lib"
cargo +nightly build --release --offline --target-dir "${1:-/tmp/bsa-target}"
