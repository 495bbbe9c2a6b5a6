#!/bin/bash
# Run in the directory of the repository: exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
dir=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" >"$dir/Cargo.toml"
cp "$here/Cargo.lock" "$dir/"
cp "$here/"*.rs "$dir/src/"
cd "$dir" || exit 3
cargo build --offline >build.log 2>&1 || { tail -30 build.log; exit 3; }
timeout 120 ./target/debug/rgbsim
