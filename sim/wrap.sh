#!/bin/bash
# Called by cargo instead of rustc: adds the instrumentation to the library under
# test only.  GSIM_INSTR: 0 none, 1 access instrumentation, 2 thread instrumentation.
rustc="$1"; shift
name=; lib=
prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name="$a"
  [ "$prev" = --crate-type ] && lib="$a"
  prev="$a"
done
extra=()
[ "$GSIM_INSTR" = 2 ] && [ -n "$name" ] && extra=(-Cunsafe-allow-abi-mismatch=sanitizer)
if [ "$name" = matrixmultiply ] && [ "$lib" = lib ]; then
  case "$GSIM_INSTR" in
    1) extra=(-Zsanitizer=address
        -Cllvm-args=-asan-instrumentation-with-call-threshold=0
        -Cllvm-args=-asan-stack=0 -Cllvm-args=-asan-globals=0
        -Cllvm-args=-asan-constructor-kind=none
        -Cllvm-args=-asan-memory-access-callback-prefix=__gsim_
        -Cllvm-args=-asan-opt-same-temp=0 -Cllvm-args=-asan-use-after-scope=0 -Cllvm-args=-asan-opt-globals=0
        -Cllvm-args=-asan-use-after-return=never
        -Cunsafe-allow-abi-mismatch=sanitizer);;
    2) extra=(-Zsanitizer=thread -Cllvm-args=-tsan-instrument-func-entry-exit=0
        -Cunsafe-allow-abi-mismatch=sanitizer);;
  esac
fi
exec "$rustc" "$@" "${extra[@]}"
