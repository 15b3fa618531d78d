#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--replay file] [--only case]
# Builds the checker against /repo's working tree and runs one property.
# exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed (e.g. no build)
export HOME=${HOME:-/root} PATH=$PATH:/root/.cargo/bin LANG=C.UTF-8
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
prop=$1
case "$prop" in
    C30|C31) flavour=vmc;  export RUSTFLAGS="--cfg vmc"; feat="--features internals" ;;
    *)       flavour=plain; feat= ;;
esac
target=$here/mc/target/$flavour
mkdir -p "$target"
log=$target/build.$$.log
if ! cargo build --release --offline --locked --manifest-path "$here/mc/Cargo.toml" --target-dir "$target" $feat >"$log" 2>&1; then
    grep -A12 "^error" "$log" | head -60 >&2
    rm -f "$log"
    echo "check.sh: the checker could not be built against /repo" >&2
    exit 2
fi
rm -f "$log"
[ "$prop" = build ] && exit 0
# runaway allocation ends the checker's child process, which counts as a violation (clean tree: below 5 GB)
ulimit -v 25000000
exec "$target/release/mc" "$@"
