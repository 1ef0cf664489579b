#!/bin/bash
# The compiler for the simulation. The library under test (crate `grib`, and `reading`, which instantiates its
# generic code) gets a call at every edge of its control flow graph: a scheduling point of C21, a step of C25,
# and the measure of what a check reached. The simulator receives these calls (core/src/alloc.rs); in the
# command-line program they do nothing (edges.c).
r=$1
shift
case " $* " in
*" --crate-name grib "* | *" --crate-name reading "*)
    set -- "$@" -Ccodegen-units=1 -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table
    ;;
*" --crate-name gribber "*)
    set -- "$@" -Clink-arg="$CARGO_TARGET_DIR/edges.o"
    ;;
esac
exec "$r" "$@"
