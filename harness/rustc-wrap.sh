#!/bin/sh
# RUSTC_WRAPPER: adds SanitizerCoverage to the code under test and to the crates that instantiate its
# generic code, and to nothing else (the coverage run-time itself must not be instrumented).
rustc="$1"; shift
case " $* " in
*" --crate-name extended_collections "*|*" --crate-name ord "*|*" --crate-name bp "*|*" --crate-name lsm "*|*" --crate-name stk "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares ;;
*" --crate-name covrt "*)
    # called for every basic block: keep it free of instrumentation of any kind
    for a in "$@"; do
        shift
        case "$a" in -Zsanitizer=*) ;; *) set -- "$@" "$a" ;; esac
    done
    exec "$rustc" "$@" ;;
*) exec "$rustc" "$@" ;;
esac
