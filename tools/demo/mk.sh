#!/bin/bash
# usage: mk.sh farming|amm DIRECTORY   lays out the files a demonstration needs
here=$(cd "$(dirname "$0")" && pwd)
root=$here/../..
to=$2
mkdir -p "$to/src/sim" "$to/decimal"
cp "$here/$1/Cargo.toml" "$here/$1/Cargo.lock" "$here/demo.sh" "$root/rust-toolchain.toml" "$to/"
cp "$here/$1/src/kit.rs" "$to/src/"
cp "$root/sim-core/src/bank.rs" "$root/sim-core/src/token.rs" "$to/src/sim/"
sed -i 's/crate::bank/crate::sim/' "$to/src/sim/token.rs"
cat >"$to/src/sim/mod.rs" <<'M'
#![allow(dead_code)]
pub mod bank;
pub mod token;
pub use bank::*;
M
sed -n '/^use solana_program::pubkey/,$p' "$root/sim-core/src/lib.rs" >>"$to/src/sim/mod.rs"
cp -r "$root/stubs/decimal/." "$to/decimal/"
rm -rf "${to:?}/decimal/target"
