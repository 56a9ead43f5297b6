#!/bin/bash
# builds the analyser and the third-party crates the obligations need, offline, from committed files
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd polymir && cargo build --release --offline)
python3 tools/prewarm.py
