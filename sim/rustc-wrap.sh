#!/bin/sh
# cargo's rustc wrapper: compiles the code under test (and the scenario crate, where its generic and
# inlined functions are instantiated) with one callback per control-flow edge. The simulator preempts
# tasks, counts work and measures coverage in that callback. The simulator runtime itself and all other
# dependencies are compiled as usual.
rustc="$1"; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      keyword_pir_lwe|xorf|sim)
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
          -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
    esac
  fi
  prev="$a"
done
exec "$rustc" "$@"
