#!/bin/bash
# Run in the repository: 0 if liner behaves as the property says in this case, nonzero if it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/scratch"
cp "$here/main.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
liner = { package = "redox_liner", path = "$repo" }
[profile.dev]
debug = 0
T
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cd "$d" || exit 2
cargo build -q --offline >"$d/log" 2>&1 || { tail -20 "$d/log"; exit 3; }
if [ -e "$here/drive.py" ]; then
    timeout 100 python3 "$here/drive.py" "$d/target/debug/demo" "$d/scratch"
else
    timeout 100 "$d/target/debug/demo" "$d/scratch"
fi
