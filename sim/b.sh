#!/bin/bash
# development build
cd /verif/sim
CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable GRIB_SIM_DEF_DIR=/verif/standin/def RUSTC_WRAPPER=/verif/sim/rustc.sh RUSTFLAGS="--cfg grib_sim --cap-lints warn" CARGO_TARGET_DIR=/verif/target cargo build --offline "$@" 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -90
