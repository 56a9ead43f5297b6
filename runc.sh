#!/bin/bash
# runc.sh MODULES OUT.json [ONLY] : analyse circuit obligations (development helper)
SYS=$(rustc +nightly --print sysroot)
python3 /verif/tools/shadow.py
export LD_LIBRARY_PATH=$SYS/lib POLYMIR_MODULES=$1 POLYMIR_OUT=$2 RUST_MIN_STACK=4000000000
[ -n "$3" ] && export POLYMIR_ONLY=$3
export RUSTC_WORKSPACE_WRAPPER=/verif/polymir/target/release/polymir RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=1 -Awarnings" CARGO_NET_OFFLINE=true
cd /verif/obligations-circuit
touch src/lib.rs
cargo +nightly check --offline --target-dir /tmp/oblc-target ${ARGS---features parallel_syn} 2>&1 | grep -E "^error|panicked" -A12 | head -${TAIL:-60}
python3 /verif/show.py $2 | cut -c1-${W:-600}
