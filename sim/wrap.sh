#!/bin/bash
# RUSTC_WRAPPER: builds the library (and only it) with SanitizerCoverage, so
# that every basic block and every load/store of the library calls into the
# simulator.  No source of the library changes.
rustc="$1"; shift
for a in "$@"; do
  if [ "$a" = latex_ast ]; then
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-prune-blocks=0 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores \
      -Zshare-generics=off -Zcross-crate-inline-threshold=never \
      -Ccodegen-units=1
  fi
done
exec "$rustc" "$@"
