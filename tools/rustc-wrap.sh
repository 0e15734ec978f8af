#!/bin/bash
# rustc for the harness build: lints never fail a build, and everything compiled for the simulated
# target (not build scripts or proc macros) gets its atomic operations turned into calls.
rustc="$1"; shift
for a in "$@"; do
  case "$a" in
    --target|--target=*)
      exec "$rustc" "$@" --cap-lints warn -C target-cpu=x86-64-v2 -C passes=tsan \
        -C llvm-args=-tsan-instrument-func-entry-exit=0 -C llvm-args=-tsan-instrument-memintrinsics=0 \
        -C llvm-args=-tsan-instrument-memory-accesses=0 ;;
  esac
done
exec "$rustc" "$@" --cap-lints warn
