#!/bin/bash
# rustc, with coverage instrumentation for bongo and the checks.
rustc=$1; shift
name=; prev=
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
case $name in
  bongo|checks|c[0-9][0-9])
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$rustc" "$@"
