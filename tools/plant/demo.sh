#!/bin/bash
# Run in the repository: exit 0 if the property holds here for this case.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/lib.rs" "$d/src/lib_.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rustqubo = { path = "$repo", default-features = false }
annealers = { path = "$repo/annealers" }
classical_solver = { path = "$repo/classical_solver" }
rand = "0.7"
T
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cd "$d" || exit 2
cargo build --offline -q 2> "$d/log" || { cat "$d/log"; exit 3; }
timeout 120 "$d/target/debug/demo"
