#!/bin/bash
# run.sh <property> [quick|thorough]: rebuilds the simulator from /repo's working tree and decides one property with it.
here=$(cd "$(dirname "$0")" && pwd)
kind=$(bash "$here/sim/which.sh" "$1")
target=target
[ "$kind" = mem ] && target=target-mem
"$here/sim/build.sh" "$kind" || { echo "run.sh: the simulator does not build" >&2; exit 2; }
exec env DST_ROOT="$here" "$here/sim/$target/debug/dst" check "$1" "${2:-quick}"
