#!/bin/bash
# builds the ledger with a played system API and runs demo_body.rs against it
set -e
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp -r "$here/ic0" "$here/http" "$work/"
cp "$here/sim.rs" "$work/demo.rs"
cp "$here/demo_body.rs" "$work/"
ws=/repo/target/offline-ws
sed "s#WS#$ws#" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cp $ws/Cargo.lock "$work/Cargo.lock"
export REPO=/repo CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0
cd "$work"
cargo build --offline > build.log 2>&1 || { tail -30 build.log; exit 3; }
timeout 120 "$work/target/debug/demo"
