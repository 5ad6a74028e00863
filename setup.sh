#!/bin/bash
# Builds both simulators from the committed files, offline.
cd "$(dirname "$0")" || exit 2
./build.sh farming && ./build.sh amm
