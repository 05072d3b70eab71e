#!/bin/sh
# RUSTC_WRAPPER: every basic block of the code under test (and of the executor's generic instances of it)
# calls __sanitizer_cov_trace_pc_guard, which the simulator library turns into a scheduling point.
case " $* " in
*" --crate-name polodb_core "*|*" --crate-name polosim_exec "*)
  exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
*" --crate-name polodb "*)
  exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard \
    -C link-arg=/verif/target/sim/libpolosim.so -C link-arg=-Wl,-rpath,/verif/target/sim ;;
*) exec "$@" ;;
esac
