#!/bin/bash
# run.sh run ID [SUB] | replay FILE | list
# Builds /repo's ti-tools from its working tree and the checks from /verif, then runs one check.
# VERIF_TIER (quick or thorough) and VERIF_SEED are read by the check.
set -u
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
REPO=${REPO_DIR:-/repo}
B=$VERIF_DIR/.build
mkdir -p "$B"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable
unset CARGO_TARGET_DIR RUSTFLAGS
build() {
    local log=$B/build-$$.log
    if ! "$@" >"$log" 2>&1; then
        echo "ERROR: build failed: $*" >&2
        tail -40 "$log" >&2
        rm -f "$log"
        exit 2
    fi
    rm -f "$log"
}
build_harness() {
    build cargo build --offline --locked --release --manifest-path "$VERIF_DIR/harness/Cargo.toml" --target-dir "$B/harness"
}
# Cargo goes by modification times, which say nothing when a tree was swapped for another one;
# what is built from the repository is built again whenever the content of a file differs.
repo_state() {
    (cd "$REPO" && echo "$REPO" && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum
}
fresh_for() { # target directory, packages that depend on the repository
    local t=$1 f
    shift
    [ "$(cat "$t/repo-state" 2>/dev/null)" = "$STATE" ] && return
    for f in "$@"; do
        rm -rf "$t"/release/.fingerprint/"$f"-*
    done
    rm -f "$t/repo-state"
}
built_for() { echo "$STATE" >"$1/repo-state"; }
build_repo() {
    fresh_for "$B/repo" ti_tools ti-tools
    # arithmetic overflow and failed debug assertions end the program, as in a debug build
    export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true
    build cargo build --offline --locked --release --bin ti-tools --manifest-path "$REPO/Cargo.toml" --target-dir "$B/repo"
    unset CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS
    built_for "$B/repo"
    export TI_BIN=$B/repo/release/ti-tools
}
build_shim() {
    build gcc -O1 -shared -fPIC -Wall -o "$B/shim.so.$$" "$VERIF_DIR/shim/shim.c" -ldl
    mv -f "$B/shim.so.$$" "$B/shim.so"
    export TI_SHIM=$B/shim.so
}
build_driver() { # driver or library
    # a copy, so that building it never touches the committed files
    fresh_for "$B/driver" ti_tools ti-tools driver
    cp -rpT "$VERIF_DIR/driver" "$B/driver-src"
    sed -i "s#path = \"/repo\"#path = \"$REPO\"#" "$B/driver-src/Cargo.toml"
    build cargo build --offline --release --manifest-path "$B/driver-src/Cargo.toml" --target-dir "$B/driver" --bin "$1"
    built_for "$B/driver"
    export TI_DRIVER=$B/driver/release/$1
}
STATE=$(repo_state)
exec 9>"$B/lock"
flock 9
build_repo
build_harness
build_shim
id=${2:-}
[ "${1:-}" = replay ] && id=$(sed -n 's/^ *"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)
# only these need the library, so that nothing else depends on how it builds
case "$id" in
C18 | C25) build_driver driver ;;
C34) build_driver library ;;
"") (build_driver driver && build_driver library) ;;
esac
exec 9>&-
[ "${1:-}" = build ] && exit 0
exec "$B/harness/release/harness" "$@"
