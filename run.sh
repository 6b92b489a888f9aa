#!/bin/bash
# run.sh build | check ID [tier] | replay FILE | list
# Rebuilds the harness together with /repo's working tree if either changed, then runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 3
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET_DIR CARGO_INCREMENTAL
mkdir -p target evidence replays

# Content rather than modification times decides what is out of date.
hash_of() { find "$@" -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1; }

build() { # stamp, hash, log, packages to rebuild, command...
    local stamp=$1 hash=$2 log=$3 clean=$4
    shift 4
    [ "$(cat "$stamp" 2>/dev/null)" = "$hash" ] && return 0
    rm -f "$stamp"
    eval "$clean" >/dev/null 2>&1
    if ! "$@" >"$log" 2>&1; then
        cat "$log" >&2
        echo "ENGINE ERROR: build failed" >&2
        return 1
    fi
    echo "$hash" >"$stamp"
}

build_all() {
    (
        flock 9
        sources=$(hash_of /repo/src /repo/Cargo.toml /repo/Cargo.lock)
        harness=$(hash_of mc/src mc/Cargo.toml mc/Cargo.lock mc/.cargo crossterm-shim)
        build target/mc.stamp "$sources $harness" target/mc.log \
            'cargo clean --offline --manifest-path mc/Cargo.toml --target-dir target/mc -p bcalc -p mc -p crossterm' \
            env -C mc cargo build --offline --locked --target-dir "$here/target/mc" || exit 3
        build target/real.stamp "$sources" target/real.log \
            'cargo clean --offline --manifest-path /repo/Cargo.toml --target-dir target/real -p bcalc' \
            cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin bcalc --target-dir "$here/target/real" || exit 3
    ) 9>target/lock || exit 3
}

case "${1:-}" in
build)
    build_all
    ;;
check | replay | list)
    build_all
    exec target/mc/debug/mc "$@"
    ;;
*)
    echo "usage: run.sh build | check ID [tier] | replay FILE | list" >&2
    exit 2
    ;;
esac
