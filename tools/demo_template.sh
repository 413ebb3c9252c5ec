#!/bin/bash
# Builds main.rs (beside this script) against the crates in the current directory and runs it:
# exit 0 when every expectation in it holds.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" && cp "$D/main.rs" "$W/src/" && cp "$R/Cargo.lock" "$W/"
{
  printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[dependencies]\n'
  for c in @CRATES@; do printf '%s = { path = "%s/crates/%s" }\n' $c "$R" $c; done
  @EXTRA@
} > "$W/Cargo.toml"
cd "$W" && CARGO_TARGET_DIR=$W/target CARGO_INCREMENTAL=0 timeout 250 cargo run --offline -q
