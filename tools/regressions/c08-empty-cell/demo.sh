#!/bin/sh
# Exit 0 when the demonstration passes on the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -r -f "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$here/hb.rs" "$tmp/src/hb.rs"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
nt-hive = { path = "$repo" }
[workspace]
END
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cd "$tmp" || exit 2
CARGO_TARGET_DIR="$tmp/target" timeout 250 cargo run --offline --quiet
