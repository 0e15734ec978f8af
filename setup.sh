#!/bin/bash
# Builds the simulator together with /repo (offline).
cd /verif/sim || exit 2
. /verif/env.sh
mkdir -p /verif/target /verif/evidence
cargo build --release --offline --target x86_64-unknown-linux-gnu >/verif/target/build.log 2>&1 || { tail -30 /verif/target/build.log >&2; exit 1; }
