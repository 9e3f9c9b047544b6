#!/bin/bash
# Usage: check.sh setup | check.sh CHECK_ID
# Builds the checker and everything it needs from /repo's current tree, then runs one check.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
unset RUST_BACKTRACE CHANOMARC RUSTFLAGS RUST_LOG CARGO_TARGET_DIR CARGO_BUILD_TARGET
V=$(cd "$(dirname "$0")" && pwd)
B=$V/.build
mkdir -p "$B" "$V/evidence" "$V/replays"
export MC_VERIF=$V CARGO_TARGET_DIR=$B/mc

# A rebuild must not depend on file times: forget the repository's build when its content changed.
stamp=$(cd /repo && find . \( -path ./target -o -path ./.git -o -name '*.so' \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
fresh() { # name, command to forget
    if [ "$(cat "$B/$1.stamp" 2>/dev/null)" != "$stamp" ]; then
        eval "$2" >/dev/null 2>&1
        rm -f "$B/$1.stamp"
    fi
}
build_mc() {
    fresh mc "cd $V/mc && cargo clean --release --offline -p chanoma -p mc"
    if ! (cd "$V/mc" && cargo build --release --offline) >"$B/mc.log" 2>&1; then
        tail -40 "$B/mc.log"
        echo "the checker does not build against /repo" >&2
        exit 2
    fi
    echo "$stamp" >"$B/mc.stamp"
}
build_py() {
    [ -d "$V/pyext" ] || return 0
    fresh py "rm -rf $B/py/release/.fingerprint/chanoma* $B/py/release/.fingerprint/pyext*"
    if ! (cd "$V/pyext" && CARGO_TARGET_DIR=$B/py PYO3_PYTHON=/opt/vp/pyvenv/bin/python3 cargo build --release --offline) >"$B/py.log" 2>&1; then
        tail -40 "$B/py.log"
        echo "the Python extension does not build" >&2
        exit 2
    fi
    echo "$stamp" >"$B/py.stamp"
    rm -rf "$B/pypkg"
    mkdir -p "$B/pypkg"
    cp -r /repo/bindings/python3/chanoma "$B/pypkg/chanoma"
    rm -rf "$B/pypkg/chanoma/__pycache__"
    cp "$B/py/release/libchanoma_py.so" "$B/pypkg/chanoma/chanoma.so"
}
case $1 in
setup)
    build_mc
    build_py
    exit 0
    ;;
C23) build_py ;;
esac
build_mc
exec "$B/mc/release/mc" check "$1"
