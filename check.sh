#!/bin/bash
# check.sh ID quick|thorough [replay SPACE INDEX]   run one check against /repo's working tree
# check.sh setup                                    only build
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$here/harness/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --release --offline --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    echo "check.sh: the harness could not be built from /repo" >&2
    exit 2
fi
[ "${1:-}" = setup ] && exit 0
if [ -d /dev/shm ] && [ -w /dev/shm ]; then base=/dev/shm; else base=/tmp; fi
scratch="$(mktemp -d "$base/wbmc.XXXXXXXX")" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export WBMC_SCRATCH="$scratch" WBMC_VERIF="$here"
"$CARGO_TARGET_DIR/release/wbmc" "$@"
