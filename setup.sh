#!/bin/bash
# Builds the MIR-dumping rustc driver and the metadata of quarchitect's dependencies into /verif/.build.
# The checks call it too when .build is missing.
set -e
V=$(cd "$(dirname "$0")" && pwd)
B="$V/.build"
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTFLAGS CARGO_TARGET_DIR RUSTUP_TOOLCHAIN
mkdir -p "$B"
exec 8>"$B/lock"
flock 8
H=$(cat "$V"/driver/src/*.rs "$V"/driver/Cargo.* "$V"/stub/Cargo.* | sha256sum)
[ "$(cat "$B/ok" 2>/dev/null)" = "$H" ] && exit 0
(cd "$V/driver" && CARGO_TARGET_DIR="$B/driver-target" cargo +nightly build --release --offline)
(cd "$V/stub" && CARGO_TARGET_DIR="$B/stub-target" cargo +nightly check --offline --locked)
rm -rf "$B/deps"; mkdir -p "$B/deps"
find "$B/stub-target" -name '*.rmeta' ! -name 'metadata.rmeta' ! -name 'libqstub*' -exec cp {} "$B/deps/" \;
cp "$B/driver-target/release/qdriver" "$B/qdriver"
rm -rf "$B/stub-target" "$B/driver-target"
echo "$H" >"$B/ok"
