#!/bin/bash
# Builds one simulator from the current tree of the repository.
# usage: build.sh farming|amm
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
name=$1
# cargo decides by modification times; content is what counts
sum=$(find "/repo/programs/$name" -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z \
    | xargs -0 sha256sum | sha256sum | cut -c1-64)
stamp=target/stamp.$name
mkdir -p target
exec 9>"target/lock.$name"
flock 9
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    rm -f "$stamp"
    cargo clean --release -p "$name" >/dev/null 2>&1
fi
if ! cargo build --release --locked -p "sim-$name" >"target/log.$name" 2>&1; then
    cat "target/log.$name" >&2
    echo "cannot build sim-$name" >&2
    exit 2
fi
echo "$sum" >"$stamp"
