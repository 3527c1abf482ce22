#!/bin/bash
# Builds every harness once (each check rebuilds what it needs anyway).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/target" CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
mkdir -p "$CARGO_TARGET_DIR"
rc=0
for c in streams client bridge contracts; do
	[ -f "$here/$c/Cargo.toml" ] || continue
	(cd "$here/$c" && cargo build --release --offline --locked) || rc=1
done
exit $rc
