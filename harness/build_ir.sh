#!/bin/bash
# build_ir.sh TARGETDIR OUT.ll FEATURES
# Compiles the harness and the crate under test to one optimised LLVM module.
# Exit 3: it does not compile. (Linking always fails: the sym_* functions exist
# in the symbolic executor only; the bitcode before code generation is kept.)
set -e
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Cno-vectorize-loops -Cno-vectorize-slp"
T=$(realpath -m "$1"); O=$(realpath -m "$2"); F=$3; mkdir -p "$T" "$(dirname "$O")"
cd "$(dirname "$0")"
rm -f "$T"/release/deps/hx-*.lto.input.bc "$O"
export CARGO_TARGET_DIR=$T
# never trust time stamps: the packages of the repository are rebuilt each time
cargo clean --release --offline -q -p graphviz-rust -p dot-structures -p dot-generator -p into-attr -p into-attr-derive -p hx 2>/dev/null || true
cargo rustc --release --offline -q --features "$F" -- -C save-temps >"$T.log" 2>&1 || true
BC=$(ls -t "$T"/release/deps/hx-*.lto.input.bc 2>/dev/null | head -1)
[ -n "$BC" ] || { cat "$T.log" >&2; exit 3; }
SYS=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
ENT=$("$SYS"/llvm-nm "$BC" | awk '$2=="T" && $3 ~ /^h_/ {printf "%s%s", (n++?",":""), $3}')
"$SYS"/opt --strip-debug -passes='internalize,globaldce,default<O2>,globaldce' -vectorize-loops=false -vectorize-slp=false -internalize-public-api-list="$ENT" "$BC" -S -o "$O"
rm -f "$T"/release/deps/hx-*.bc "$T"/release/deps/hx-*.o
