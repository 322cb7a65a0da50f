#!/bin/sh
# Compile the library and the explorer with callbacks at edges of control flow and at memory accesses.
rustc="$1"; shift
case " $* " in
*" --crate-name html5_fuser "*|*" --crate-name mc "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc \
        -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores ;;
*) exec "$rustc" "$@" ;;
esac
