#!/bin/bash
# replay.sh [-v] <file>: rebuilds the simulator and replays a violation exactly (exit 1 if it is reproduced).
here=$(cd "$(dirname "$0")" && pwd)
for f in "$@"; do :; done
kind=$(bash "$here/sim/which.sh" "$(sed -n 's/^prop=//p' "$f")")
target=target
[ "$kind" = mem ] && target=target-mem
"$here/sim/build.sh" "$kind" || exit 2
exec env DST_ROOT="$here" "$here/sim/$target/debug/dst" replay "$@"
