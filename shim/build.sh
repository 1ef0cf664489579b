#!/bin/bash
# the fault-injecting libc layer used by C10-C12 and C14
set -eu
cd "$(dirname "$0")"
out=${CARGO_TARGET_DIR:-/verif/target}/debug
mkdir -p "$out"
gcc -std=gnu11 -O2 -Wall -Wextra -Wno-unused-parameter -fPIC -shared -o "$out/libgribshim.so" shim.c -ldl -lpthread
