#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS : takes the uncommitted change in /tmp/wt (a copy of /repo), and the demo's main.rs (or demo.sh) from
# /tmp/demo, confirms them, writes seeded/ID, and undoes the change in /tmp/wt
set -e
id=$1; d=/verif/seeded/$id; rm -rf /verif/seeded/$id; mkdir -p $d
cd /tmp/wt
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
if [ -f /tmp/demo/demo.sh ]; then cp /tmp/demo/* $d/; else
cp /tmp/demo/main.rs $d/main.rs
cat > $d/demo.sh <<'X'
#!/bin/bash
# builds main.rs (beside this file) against the core crate of the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"; cp "$here/main.rs" "$w/src/main.rs"; cp "$repo/Cargo.lock" "$w/Cargo.lock"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\ngc-core = { path = "%s/core" }\n[workspace]\n' "$repo" > "$w/Cargo.toml"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2> "$w/log" || { cat "$w/log"; exit 3; }
cd "$w" && timeout 120 "$w/target/debug/demo"
X
fi
chmod +x $d/demo.sh
python3 - "$id" "$2" "$3" "$4" <<'P'
import json,sys
i,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
# confirm: builds, tests pass, demo fails; without the change demo passes
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/wt/target
find core command -name '*.rs' -exec touch {} +
cargo build --workspace --locked --offline -q 2>/dev/null
n=$(cargo test --workspace --locked --offline 2>/dev/null | grep -c '^test .* ok$' || true)
unset CARGO_TARGET_DIR
cp -r $d /tmp/seedx
r1=0; (cd /tmp/wt && bash /tmp/seedx/demo.sh > /tmp/demo_bad.log 2>&1) || r1=$?
git checkout -q -- .
find core command -name '*.rs' -exec touch {} +
CARGO_TARGET_DIR=/tmp/wt/target cargo build --workspace --locked --offline -q 2>/dev/null
r0=0; (cd /tmp/wt && bash /tmp/seedx/demo.sh > /tmp/demo_ok.log 2>&1) || r0=$?
rm -rf /tmp/seedx
echo "$id tests_ok=$n demo_bad=$r1 demo_ok=$r0"
[ "$n" = 144 ] && [ $r1 != 0 ] && [ $r1 != 3 ] && [ $r0 = 0 ] || { echo "REJECTED $id"; tail -n 3 /tmp/demo_bad.log || true; tail -n 3 /tmp/demo_ok.log || true; mkdir -p /tmp/rejected; rm -rf /tmp/rejected/$id; mv $d /tmp/rejected/; exit 1; }
