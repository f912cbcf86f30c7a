#!/bin/bash
# usage: check.sh <property> <quick|thorough> | check.sh --build
# Rebuilds the explorer against /repo's working tree and runs one property's check.
set -u
export HOME="${HOME:-/root}" PATH="$PATH:/root/.cargo/bin"
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$HERE"
export CARGO_TARGET_DIR="$HERE/mc/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
unset CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" "$HERE/evidence" "$HERE/replays"
build() {
    local stamp="$CARGO_TARGET_DIR/source.stamp" now
    now=$(cd /repo && { find src -type f | LC_ALL=C sort; echo Cargo.toml; } | xargs sha256sum | sha256sum)
    # do not trust time stamps to notice a change of the code under test
    if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
        (cd "$HERE/mc" && cargo clean --release --offline -p midi2spc -p mc) >/dev/null 2>&1
        rm -f "$stamp"
    fi
    if ! (cd "$HERE/mc" && cargo build --release --offline --locked) >"$CARGO_TARGET_DIR/build.log" 2>&1; then
        tail -n 40 "$CARGO_TARGET_DIR/build.log" >&2
        echo "check error: build failed" >&2
        return 1
    fi
    echo "$now" >"$stamp"
}
exec 9>"$CARGO_TARGET_DIR/check.lock"
flock 9
build || exit 3
flock -u 9
exec 9>&-
[ "${1:-}" = --build ] && exit 0
exec "$CARGO_TARGET_DIR/release/mc" run "${1:?property}" "${2:-quick}"
