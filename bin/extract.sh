#!/bin/bash
# Build the MIR extractor and run it over the buildable crates of /repo's working tree.
# Facts land in $1 (one JSON per crate).
set -e
VERIF=$(cd "$(dirname "$0")/.." && pwd)
OUT=${1:?out dir}
CACHE=$VERIF/.cache
export HOME=/root PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= 
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC
export RUSTUP_TOOLCHAIN=nightly
mkdir -p "$CACHE" "$OUT"
(cd "$VERIF/driver" && CARGO_TARGET_DIR="$CACHE/driver-target" cargo build --offline -q)
WS=$CACHE/ws
rm -rf "$WS"; mkdir -p "$WS/crates"
ln -s /repo/Cargo.toml "$WS/Cargo.toml"
ln -s /repo/third_party "$WS/third_party"
for n in licensing logging_config parsa parsa_python parsa_python_cst test_utils utils vfs; do
    ln -s "/repo/crates/$n" "$WS/crates/$n"
done
cp /repo/Cargo.lock "$WS/Cargo.lock"
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
export MIRFACTS_OUT=$OUT MIRFACTS_CRATES=licensing,logging_config,parsa,parsa_python,parsa_python_cst,test_utils,utils,vfs
export RUSTC_WORKSPACE_WRAPPER=$CACHE/driver-target/debug/mirfacts
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$CACHE/facts-target
export CARGO_PROFILE_DEV_DEBUG=0
cd "$WS"
# cargo skips fresh units: make every workspace member stale so that each is re-extracted
for n in licensing logging_config parsa parsa_python parsa_python_cst test_utils utils vfs; do
    rm -rf "$CACHE"/facts-target/debug/.fingerprint/$n-* "$CACHE"/facts-target/debug/build/$n "$CACHE"/facts-target/debug/build/$n-*
done
cargo check --workspace --offline 
