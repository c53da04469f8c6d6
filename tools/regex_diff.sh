#!/bin/bash
# regex_diff.sh [N]: differential test of model/regex against the real regex crate (N random patterns)
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" "$w/model/src"; cp "$here/regex_diff/main.rs" "$w/src/main.rs"; cp "$here"/../model/regex/src/* "$w/model/src/"
printf '[package]\nname = "model"\nversion = "0.1.0"\nedition = "2021"\n' > "$w/model/Cargo.toml"
printf '[package]\nname = "regex_diff"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nmodel = { path = "model" }\nreal = { package = "regex", version = "=1.3.5" }\n[workspace]\n' > "$w/Cargo.toml"
cp /repo/Cargo.lock "$w/Cargo.lock"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline --release -q 2> "$w/log" || { tail -20 "$w/log"; exit 3; }
"$w/target/release/regex_diff" "$@"
