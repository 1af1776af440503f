#!/bin/bash
# Builds the simulator against /repo's current working tree into $1 (a new
# directory). Exit 0 only if everything built. Should the rewritten sources not
# compile, less of them is rewritten. With -race as second argument they also
# report their memory accesses.
mkdir -p "$1" || exit 1; out=$(cd "$1" && pwd)
. /verif/sim/env.sh
cd /verif/sim || exit 1
go build -o "$out/instrument" ./instrument || exit 1
# (channels that are not simulated would order nothing, so -race needs them)
less=("-nochan" "-plain" "-plain -nochan")
[ "$2" = -race ] && less=("-plain")
for how in "" "${less[@]}"; do
	rm -rf "$out/ov"
	[ -n "$how" ] && echo "build.sh: building with instrument $how" >&2
	"$out/instrument" $2 $how -src /repo -out "$out/ov" && go build -overlay "$out/ov/overlay.json" -o "$out/dst" ./dst && exit 0
done
exit 1
