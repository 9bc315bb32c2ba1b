#!/bin/sh
# adds callbacks at control-flow edges and atomic operations to the library under test (and to nothing else)
rustc="$1"; shift
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = "ifc_rs" ]; then
    exec "$rustc" "$@" '-Cpasses=sancov-module function(tsan)' -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 -Cllvm-args=-tsan-handle-cxx-exceptions=0 -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=16
  fi
  prev="$a"
done
exec "$rustc" "$@"
