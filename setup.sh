#!/bin/bash
# Builds the engine, and every group's dependencies, so that checks only
# rebuild what comes from /repo.
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
(cd engine && cargo build --release --offline -q) || exit 1
for g in text print attrs structs macros cmds; do
  mkdir -p build/$g
  (harness/build_ir.sh build/$g/ir build/$g/hx.ll $g >build/$g.setup.log 2>&1;
   cd harness && CARGO_TARGET_DIR=../build/$g/native cargo build --offline -q --features replay,$g >>../build/$g.setup.log 2>&1) &
done
wait
exit 0
