#!/bin/bash
# build.sh [mem|both]: builds the simulator with the current working tree of /repo; `mem`: with every load and store
# instrumented, too. Writes only below sim/target and sim/target-mem.
set -u
export HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
here=$(cd "$(dirname "$0")" && pwd)
if [ "${1:-}" = both ]; then
	"$here/build.sh" && exec "$here/build.sh" mem
	exit 2
fi
export CARGO_TARGET_DIR=$here/target
unset DST_MEM
if [ "${1:-}" = mem ]; then
	export CARGO_TARGET_DIR=$here/target-mem DST_MEM=1
fi
export RUSTC_WRAPPER=$here/tools/rustc-wrap.sh
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.dst-lock"
flock 9
cd "$here" || exit 2
# not relying on time stamps
sum=$(cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print | LC_ALL=C sort | xargs -d '\n' cat -- 2>/dev/null | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/.dst-sum" 2>/dev/null)" ]; then
	rm -f "$CARGO_TARGET_DIR/.dst-sum"
	cargo clean --offline -p rustqubo -p annealers -p classical_solver >/dev/null 2>&1
fi
cargo build --offline --locked 2>"$CARGO_TARGET_DIR/.dst-log" 9>&-
rc=$?
if [ $rc -ne 0 ]; then
	tail -50 "$CARGO_TARGET_DIR/.dst-log" >&2
	exit 2
fi
echo "$sum" >"$CARGO_TARGET_DIR/.dst-sum"
