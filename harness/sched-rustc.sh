#!/bin/bash
# RUSTC_WRAPPER: instruments the library's control flow (a call at every edge), nothing else.
rustc=$1; shift
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ] && { [ "$a" = stacks_rs ] || [ "$a" = mc_pure ]; }; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
  fi
  prev=$a
done
exec "$rustc" "$@"
