#!/bin/bash
# exit 0 when the property holds on the working tree's poseidon-circuit, nonzero when the demonstration fails
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=${REPO_ROOT:-$(pwd)}
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2024-07-07 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTC_WRAPPER=
# stand-ins for the dependencies of poseidon-circuit that are not available offline (halo2_proofs, log)
tar -xf "$HERE/standins.tar" -C "$T"
mkdir -p "$T/circuit" "$T/d/src"
sed "s#@ROOT@#$ROOT#g; s#@T@#$T#g" "$HERE/circuit.toml.in" > "$T/circuit/Cargo.toml"
sed "s#@ROOT@#$ROOT#g; s#@T@#$T#g" "$HERE/Cargo.toml.in" > "$T/d/Cargo.toml"
cp "$HERE/main.rs" "$HERE/mock.rs" "$T/d/src/"
cp "$HERE/Cargo.lock" "$T/d/Cargo.lock"
cd "$T/d" || exit 2
timeout 250 cargo run -q --offline
