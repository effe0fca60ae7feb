#!/bin/bash
# Builds the harness against /repo's current tree and runs the check of one property: run.sh Cxx
cd "$(dirname "$0")" || exit 2
mkdir -p target evidence
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
[ -f /opt/vp/env.sh ] && { . /opt/vp/env.sh; export CARGO_TARGET_DIR="$PWD/target"; }
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
cargo build --offline --manifest-path pbt/Cargo.toml >target/build.log 2>&1 || { mkdir -p target; cat target/build.log | tail -40; echo "the harness does not build"; exit 2; }
[ "$1" = build ] && exit 0
[ "$1" = replay ] && exec target/debug/pbt replay "$2" "$3"
exec target/debug/pbt run "$1"
