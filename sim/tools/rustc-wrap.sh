#!/bin/bash
# Instruments the basic-block edges of the code under test, so that the simulator can switch threads there.
# The code under test is linked statically only (its crate is an rlib and a dylib).
name=
args=()
rustc=$1
shift
while [ $# -gt 0 ]; do
	case $1 in
	--crate-name) name=$2 ;;
	--crate-type)
		if [ "$2" = dylib ] && [ "$name" = rustqubo ]; then
			shift 2
			continue
		fi
		;;
	--extern)
		case $2 in
		rustqubo=*.so)
			shift 2
			continue
			;;
		esac
		;;
	esac
	args+=("$1")
	shift
done
[ -n "${DST_MEM:-}" ] && case $name in
rustqubo | annealers | classical_solver | dst)
	args+=(-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores)
	;;
esac
case $name in
rustqubo | annealers | classical_solver | dst | rayon | rayon_core | crossbeam_deque | crossbeam_epoch | crossbeam_utils)
	args+=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard)
	;;
esac
exec "$rustc" "${args[@]}"
