#!/bin/bash
# Usage: check.sh build | check.sh ID | check.sh replay FILE
# Builds what is needed from /repo's working tree and runs a check. Exit 0: held; 1: violated; else: no answer.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_BUILD_TARGET RUSTC RUSTC_WORKSPACE_WRAPPER
mkdir -p target

# The sources decide whether to build again, whatever their dates say.
sources() {
    find /repo -name target -prune -o -name .git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum
}

fresh() { # target-dir manifest packages...
    local dir=$1 manifest=$2 sum
    shift 2
    sum=$(sources)
    if [ -e "$dir" ] && [ "$(cat "$dir/sources" 2>/dev/null)" != "$sum" ]; then
        for package in "$@"; do
            cargo clean --offline --manifest-path "$manifest" --target-dir "$dir" -p "$package" $PROFILE >/dev/null 2>&1
        done
    fi
    mkdir -p "$dir"
    rm -f "$dir/sources"
    STAMP=$sum
}

# The interval crate is built from a copy: its plugin module is not known to compile against the core,
# and no property depends on it, so it is emptied if the whole does not.
interval() { # file to empty
    local dir=target/interval-src
    rm -rf "$dir.new" && mkdir -p "$dir.new" && cp -pr /repo/plugins/interval/src/. "$dir.new" || return
    [ -z "$1" ] || : >"$dir.new/$1"
    rm -rf "$dir" && mv "$dir.new" "$dir"
}

build() { # what
    local log=target/build-$1.log
    (
        flock 9
        [ -e target/interval-src ] || interval
        case $1 in
        h)
            PROFILE=--release fresh target/h harness/Cargo.toml plotline plotline-cli vharness
            (cd harness && cargo build --release --offline --target-dir ../target/h) && echo "$STAMP" >target/h/sources
            ;;
        hi)
            [ "$(cat target/hi/sources 2>/dev/null)" = "$(sources)" ] || interval
            PROFILE=--release fresh target/hi harness/Cargo.toml plotline plotline-cli plotline-shim plotline-plugin-interval vharness
            compile() {
                (cd harness && cargo build --release --offline --features interval --target-dir ../target/hi)
            }
            compile || { interval plugin.rs && compile; } && echo "$STAMP" >target/hi/sources
            ;;
        cli)
            PROFILE= fresh target/cli /repo/plotline-cli/Cargo.toml plotline plotline-cli
            cargo build --offline --manifest-path /repo/plotline-cli/Cargo.toml --target-dir "$VERIF_DIR/target/cli" && echo "$STAMP" >target/cli/sources
            ;;
        esac
    ) 9>target/lock >"$log" 2>&1 || {
        echo "no answer: the build of $1 failed" >&2
        tail -n 40 "$log" >&2
        return 1
    }
}

case $1 in
build)
    build h && build hi && build cli || exit 2
    ;;
replay)
    case $(grep -o -m1 '"property": *"[A-Z0-9]*"' "$2") in
    *'"I'*)
        build hi || exit 2
        exec target/hi/release/vharness replay "$2"
        ;;
    *)
        build h && build cli || exit 2
        export VH_CLI=$VERIF_DIR/target/cli/debug/plotline
        exec target/h/release/vharness replay "$2"
        ;;
    esac
    ;;
I*)
    build hi || exit 2
    exec target/hi/release/vharness check "$1"
    ;;
C*)
    build h && build cli || exit 2
    export VH_CLI=$VERIF_DIR/target/cli/debug/plotline
    exec target/h/release/vharness check "$1"
    ;;
?*)
    build h || exit 2
    exec target/h/release/vharness check "$1"
    ;;
*)
    echo "usage: check.sh build | ID | replay FILE" >&2
    exit 64
    ;;
esac
