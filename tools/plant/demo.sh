#!/bin/sh
# Builds the program beside this script against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here"/*.rs "$t/src/" && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hash-trie = { path = "$repo" }
futures-executor = "0.3"
END
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline -q 2>&1
