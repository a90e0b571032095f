#!/bin/sh
# RUSTC_WRAPPER: the code under test reports every branch it takes, so that a
# task can be switched out at any of them.
name=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    prev=$a
done
case $name in
fastxdr | bytes)
    set -- "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc-guard
    ;;
esac
exec "$@"
