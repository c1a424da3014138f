#!/bin/bash
# The compiler, which adds edge counters to the code of csvpp (and to nothing else)
case " $* " in
    *" --crate-name csvpp --edition"*" --crate-type lib "*|*" --crate-name csvp --edition"*" --crate-type lib "*)
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
            -Cllvm-args=-sanitizer-coverage-trace-compares ;;
    *" --crate-type bin "*)
        exec "$@" -Clink-arg="$VERIF_COV" ;;
esac
exec "$@"
