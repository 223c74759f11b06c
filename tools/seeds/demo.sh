#!/bin/sh
# Builds and runs main.rs against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp -r "$here/shim" "$here/src" "$here/Cargo.lock" "$t/" || exit 2
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$t/Cargo.toml" || exit 2
export HOME=/root PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
unset CARGO_RESOLVER_LOCKFILE_PATH RUSTC_WRAPPER
cd "$t" && timeout 250 cargo run --offline -q
