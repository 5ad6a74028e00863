#!/bin/bash
# Decides one property on the current tree of the repository.
# usage: check.sh farming|amm PROPERTY [arguments of the simulator]
cd "$(dirname "$0")" || exit 2
name=$1
property=$2
shift 2
./build.sh "$name" || exit 2
case $name in
farming) bin=farmsim ;;
amm) bin=ammsim ;;
*) exit 2 ;;
esac
exec "target/release/$bin" check --property "$property" "$@"
