#!/bin/bash
# Builds a small host program against the repository in the current directory and runs one fixed scenario on it.
REPO=$(pwd)
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/nbdemo.XXXXXX) || exit 9
trap 'rm -rf "$W"' EXIT
cp -r "$HERE/src" "$HERE/Cargo.lock" "$W/" || exit 9
sed "s#@REPO@#$REPO#" "$HERE/Cargo.toml" > "$W/Cargo.toml"
export NB_REPO="$REPO"
export PATH="${HOME:-/root}/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${NBDEMO_TARGET:-$W/target}" CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER
(cd "$W" && cargo build --offline --locked -q 2> build.log) || { tail -30 "$W/build.log"; echo "build failed"; exit 8; }
ulimit -v 8000000 2>/dev/null
timeout 60 "$CARGO_TARGET_DIR/debug/demo" > "$W/out.txt" 2> "$W/err.txt"
RC=$?
if [ $RC -ne 0 ]; then echo "exit status $RC"; tail -5 "$W/err.txt"; exit 1; fi
diff "$HERE/expected.txt" "$W/out.txt" && echo "as expected"
