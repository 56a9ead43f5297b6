#!/bin/bash
# run.sh MODULES OUT.json : analyse obligations of the given modules
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib POLYMIR_MODULES=$1 POLYMIR_OUT=$2 RUST_MIN_STACK=4000000000
export RUSTC_WORKSPACE_WRAPPER=/verif/polymir/target/release/polymir RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=1 -Awarnings" CARGO_NET_OFFLINE=true
cd /verif/obligations
touch src/lib.rs
cargo +nightly check --offline --target-dir /tmp/obl-target $3 2>&1 | tail -${TAIL:-30}
