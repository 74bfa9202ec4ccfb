#!/bin/bash
# Builds what the checks run: the engine, the harness IR and the replay binaries,
# the latter two from /repo's current working tree. usage: build.sh [what...]
set -e
export RUSTFLAGS="--cap-lints allow"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
V="$(cd "$(dirname "$0")" && pwd)"
B="${VERIF_BUILD:-$V/build}"
mkdir -p "$B"
for w in "${@:-engine ir dev}"; do for w in $w; do
case $w in
engine) CARGO_TARGET_DIR="$V/engine/target" cargo build -q --release --offline --manifest-path "$V/engine/Cargo.toml" ;;
ir) RUSTFLAGS="--cap-lints allow -C no-vectorize-loops -C no-vectorize-slp" CARGO_TARGET_DIR="$B/ir" \
    cargo rustc -q --release --offline --lib --crate-type cdylib --manifest-path "$V/harness/Cargo.toml" -- --cap-lints allow --emit=llvm-ir ;;
dev) CARGO_TARGET_DIR="$B/nat" cargo build -q --offline --bin replay --features native --manifest-path "$V/harness/Cargo.toml" ;;
fast) CARGO_TARGET_DIR="$B/nat" cargo build -q --offline --profile fast --bin replay --features native --manifest-path "$V/harness/Cargo.toml" ;;
asan) RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="--cap-lints allow -Zsanitizer=address" CARGO_TARGET_DIR="$B/asan" \
    cargo build -q --offline --bin replay --features native --target x86_64-unknown-linux-gnu --manifest-path "$V/harness/Cargo.toml" ;;
esac
done; done
