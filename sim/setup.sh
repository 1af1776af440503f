#!/bin/bash
# Warms the build cache: builds both forms of the simulator and throws them away.
mkdir -p /verif/.build || exit 1
dir=$(mktemp -d /verif/.build/setup.XXXXXX) || exit 1
trap 'rm -rf "$dir"' EXIT
/verif/sim/build.sh "$dir" -race && /verif/sim/build.sh "$dir"
