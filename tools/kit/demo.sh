#!/bin/bash
# Run in the repository: builds main.rs against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf -- "${work:?}"' EXIT
mkdir "$work/src" "$work/data"
cp "$here/main.rs" "$here/kit.rs" "$work/src/"
cp "$repo/Cargo.lock" "$work/" 2>/dev/null
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
quarchitect = { path = "$repo" }
[workspace]
T
cd "$work/data" || exit 2
export CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0
cargo build --offline --quiet --manifest-path "$work/Cargo.toml" >"$work/build.log" 2>&1 || {
    tail -30 "$work/build.log"
    exit 2
}
DEMO_DIR="$work/data" timeout 120 "$work/target/debug/demo" >"$work/out.log" 2>&1
rc=$?
tail -5 "$work/out.log"
exit $rc
