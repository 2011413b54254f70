#!/bin/sh
# Cargo calls this as: rustc.sh RUSTC ARGS...; the library reports its edges and comparisons.
case " $* " in
*" --crate-name dash7 "*)
  exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
    -C llvm-args=-sanitizer-coverage-inline-8bit-counters -C llvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$@"
