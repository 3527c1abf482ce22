#!/bin/bash
# check.sh <property>: rebuilds the harness of this property from /repo's
# working tree and runs the check. See DESIGN.md.
set -u
prop="$1"
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/target" CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS
case "$prop" in
S*) crate=streams; bin=streams ;;
T*) crate=client; bin=client ;;
B*) crate=bridge; bin=bridge ;;
C*) crate=contracts; bin=contracts ;;
*) echo "unknown property $prop"; exit 2 ;;
esac
log="$CARGO_TARGET_DIR/build-$crate.log"
mkdir -p "$CARGO_TARGET_DIR"
if ! (cd "$here/$crate" && cargo build --release --offline --locked) >"$log" 2>&1; then
	tail -60 "$log"
	echo "build of $crate failed"
	exit 2
fi
exec "$CARGO_TARGET_DIR/release/$bin" check "$prop"
