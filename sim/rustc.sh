#!/bin/sh
# The compiler of the simulator's build (RUSTC_WRAPPER): the stateful crates of the repository call the scheduler at
# every basic block, so that a run can pre-empt a thread between any two of them.
name= kind= prev=
for a; do
    case $prev in
    --crate-name) name=$a ;;
    --crate-type) kind=$a ;;
    esac
    prev=$a
done
case $name:$kind in
fr_common:* | fr_codec*:* | fr_crypto:* | fr_limited_vec:* | fr_pvm_core:* | fr_pvm_types:* | fr_test_utils:*) ;;
fr_*:lib | fr_*:rlib)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=2 -Cllvm-args=-sanitizer-coverage-trace-pc
    ;;
esac
exec "$@"
