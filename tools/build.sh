#!/bin/bash
# Builds a simulator crate from /repo's current working tree: build.sh CRATE
HERE=$(cd "$(dirname "$0")/.." && pwd)
export HOME="${HOME:-/root}" PATH="${HOME:-/root}/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$HERE/target/$1"
DIR=$1; FEAT=
# the command-line simulator with the program's own main file, for the property on its system calls
[ "$1" = simfiles ] && { DIR=simcli; FEAT="--features files"; }
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
[ -f "$HERE/$DIR/rustflags" ] && export RUSTFLAGS="$(cat "$HERE/$DIR/rustflags")"
cd "$HERE/$DIR" || exit 3
exec cargo build --release --offline --locked -q $FEAT 2> >(grep -E -A12 '^error' >&2)
