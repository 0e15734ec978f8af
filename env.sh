# Sourced by the checks: offline toolchain settings; harness and repository are compiled together from source
# with every atomic operation turned into a call (LLVM's tsan pass; the runtime is sim/c/simrt.c).
export HOME=/root
export PATH=/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target
export RUSTC_WRAPPER=/verif/tools/rustc-wrap.sh
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
