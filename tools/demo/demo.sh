#!/bin/bash
# Exits 0 if the program behaves, non-zero if it does not.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "${work:?}"' EXIT
cp -r "$here/." "$work/"
cd "$work" || exit 9
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cargo build --quiet || exit 9
./target/debug/demo
