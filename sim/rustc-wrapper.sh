#!/bin/sh
# RUSTC_WRAPPER: instruments the code under test (and nothing else) with SanitizerCoverage
# call-backs, which are the simulator's scheduling points.
rustc="$1"
shift
name=""
prev=""
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name="$a"
    prev="$a"
done
case "$name" in
plotline | plotline_cli | plotline_interval | plsim | plsim_interval)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
    ;;
*) exec "$rustc" "$@" ;;
esac
