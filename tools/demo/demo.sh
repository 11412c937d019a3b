#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it: exit 0 when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=/root PATH=/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
wot-td = { path = "$repo" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
time = "0.3"
oxilangtag = "0.1"
T
cd "$work" || exit 2
cargo build --offline --target-dir "$work/target" >"$work/log" 2>&1 || { cat "$work/log"; exit 3; }
exec_rc=0
"$work/target/debug/harness" || exec_rc=1
exit $exec_rc
