#!/bin/sh
# cargo calls: rustc-wrap.sh RUSTC ARGS...   Instrument only the library under test and the harness that
# monomorphises its generics: every basic block, load and store becomes a scheduling point of the simulator.
rustc="$1"; shift
crate=""; prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then crate="$a"; fi
  prev="$a"
done
case "$crate" in
  reCTBN|sim)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
