#!/bin/bash
# usage: build_sym.sh core|cli  -> prints the path of the .ll
set -e
cd "$(dirname "$0")/harness/$1"
export RUSTFLAGS="--cap-lints allow"
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=/verif/build/sym-$1 CARGO_NET_OFFLINE=true
rm -f /verif/build/sym-$1/release/deps/h$1*.ll
cargo rustc --release --offline -q -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C linker=/bin/true
ls /verif/build/sym-$1/release/deps/h$1*.ll
