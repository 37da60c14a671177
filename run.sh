#!/bin/bash
# run.sh PROPERTY quick|thorough|--replay [FILE]
cd "$(dirname "$0")"; ROOT=$PWD
B=$(bash ./build.sh) || { echo "build failed" >&2; exit 2; }
export VF_BIN=$B
export ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:quarantine_size_mb=8:allocator_may_return_null=1:malloc_context_size=6:detect_stack_use_after_return=0:${VF_ASAN:-}"
export UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98"
V=vf; [ "$1" = P02 ] && V=vf-cov
exec "$B/$V" "$ROOT" "$@"
