#!/bin/bash
# check.sh PROPERTY TIER: builds the simulator from /repo's working tree and
# searches for a violation. Exit 0: held; 1: VIOLATION line; 2: no answer.
prop=$1 tier=${2:-quick}
mkdir -p /verif/.build || exit 2
dir=$(mktemp -d /verif/.build/check.XXXXXX) || exit 2
trap 'rm -rf "$dir"' EXIT
flag=
[ "$prop" = C20 ] && flag=-race
/verif/sim/build.sh "$dir" $flag >"$dir/log" 2>&1 || { cat "$dir/log" >&2; echo "check error: the simulator does not build against /repo" >&2; exit 2; }
"$dir/dst" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || rc=2
exit $rc
