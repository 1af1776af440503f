#!/bin/bash
# replay.sh FILE: re-executes a recorded violation against /repo's working tree
# and prints its event trace. Exit 1: the same violation; 0: none; 3: another one.
mkdir -p /verif/.build
dir=$(mktemp -d /verif/.build/replay.XXXXXX) || exit 2
trap 'rm -rf "$dir"' EXIT
file=$(realpath "$1")
flag=
grep -q '"property": *"C20"' "$file" && flag=-race
/verif/sim/build.sh "$dir" $flag >"$dir/log" 2>&1 || { cat "$dir/log" >&2; exit 2; }
"$dir/dst" replay -trace "$file"
