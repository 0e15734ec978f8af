#!/bin/bash
# run.sh <property> quick|thorough : build harness and repository from source, run the check.
cd /verif/sim || exit 2
. /verif/env.sh
t0=$(date +%s.%N)
mkdir -p /verif/target
if ! cargo build --release --offline --target x86_64-unknown-linux-gnu >/verif/target/build.log 2>&1; then
  grep -E -A8 '^error' /verif/target/build.log | head -60 >&2
  echo "build failed" >&2
  exit 2
fi
export ZKPSIM_BUILD_S=$(echo "$(date +%s.%N) - $t0" | bc 2>/dev/null || echo 0)
exec /verif/target/x86_64-unknown-linux-gnu/release/zkpsim check "$1" "$2"
