#!/bin/bash
# usage: run.sh setup | run.sh <PROPERTY> [quick|thorough] [count]
# Builds the simulator (and, through it, the code of /repo's working tree) and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export SIM_ROOT=$here
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
export GRIB_SIM_DEF_DIR=$here/standin/def
export RUSTFLAGS="--cfg grib_sim --cap-lints warn"
export CARGO_TARGET_DIR=$here/target
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=$here/sim/rustc.sh
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" || exit 2

content_hash() {
    # everything the build reads, by content: file times are not trusted
    (
        cd /repo && find Cargo.toml Cargo.lock build.rs src gen cli codegen def -type f \
            -not -path '*/target/*' -not -path '*/testdata/*' -print0 | sort -z | xargs -0 sha256sum
        cd "$here" && find sim standin shim -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum
    ) | sha256sum
}

build() {
    exec 9>"$CARGO_TARGET_DIR/.run.lock"
    flock 9
    local now log
    log=$CARGO_TARGET_DIR/build.log
    now=$(content_hash)
    if [ -x "$CARGO_TARGET_DIR/debug/grib-sim" ] && [ "$now" = "$(cat "$CARGO_TARGET_DIR/.stamp" 2>/dev/null)" ]; then
        flock -u 9
        return 0
    fi
    rm -f "$CARGO_TARGET_DIR/.stamp"
    cd "$here/sim" || return 2
    for p in grib grib-build grib-codegen grib-cli grib-sim; do
        cargo clean --offline -p "$p" >/dev/null 2>&1
    done
    if ! { gcc -O2 -c "$here/sim/edges.c" -o "$CARGO_TARGET_DIR/edges.o" && cargo build --offline -p grib-sim && cargo build --offline -p grib-cli; } >"$log" 2>&1; then
        tail -40 "$log"
        echo "the code of /repo could not be built"
        return 2
    fi
    if ! bash "$here/shim/build.sh" >>"$log" 2>&1; then
        tail -20 "$log"
        return 2
    fi
    echo "$now" >"$CARGO_TARGET_DIR/.stamp"
    flock -u 9
}

build || exit 2
[ "${1:-}" = setup ] && exit 0
cd "$here" || exit 2
exec "$CARGO_TARGET_DIR/debug/grib-sim" check "$@" 9>&-
