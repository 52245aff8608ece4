#!/bin/bash
# RUSTC_WRAPPER: instruments the basic blocks of the code under test (and of the
# crates that instantiate its generic code) so that the simulator may preempt there.
rustc="$1"; shift
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; break; fi
  prev="$a"
done
case "$name" in
  engineering|harness|sim_psp*|sim_srflp*|sim_tsptw*|sim_timeout|sim_model)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
