#!/bin/bash
# mkseed.sh ID PROPERTY CRATEFILE...: turns the uncommitted edits of the scratch copy /tmp/w into /verif/seeded/ID, with the demo program /tmp/demo.rs
# (one line "//needs: ..." and one "//breaks: ..." give the meta data). Confirms build, tests, demo both ways and runs the property's check.
set -u
id=$1; prop=$2
W=/tmp/w; S=/verif/seeded/$id
mkdir -p $S
git -C $W diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no edits in $W"; exit 1; }
[ -f /tmp/demo.rs ] && mv /tmp/demo.rs $S/main.rs
cat > $S/demo.sh <<'D'
#!/bin/bash
# builds main.rs against the crates of the current directory's tree and runs it: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
cd "$repo" || exit 1
export CARGO_TARGET_DIR="$repo/target"
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
sed "s#@REPO@#$repo#g" "$here/main.rs" > "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
kzg = { path = "$repo/kzg" }
plonk = { path = "$repo/plonk" }
fri = { path = "$repo/fri" }
nova = { path = "$repo/nova" }
ark-ff = "0.4.2"
ark-poly = "0.4.2"
ark-ec = "0.4.2"
ark-bls12-381 = "0.4.0"
ark-serialize = "0.4.2"
ark-std = { version = "0.4.0", default-features = false }
rand = "0.8.5"
sha2 = "0.10"
sha2fri = { package = "sha2", version = "0.11.0-pre.3" }
T
cd "$d" && timeout 280 cargo run --offline --quiet 2>&1
D
chmod +x $S/demo.sh
python3 - $id $prop <<'P'
import sys,json,re
i,p=sys.argv[1:]
s=open('/verif/seeded/%s/main.rs'%i).read()
n=re.search(r'//needs: (.*)',s).group(1); b=re.search(r'//breaks: (.*)',s).group(1)
json.dump({"property":p,"needs":n,"what_it_breaks":b},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$W/target
cd $W
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.log 2>&1; echo "tests rc=$?"; grep -E "^test .*FAILED|panicked|error" /tmp/seed.log | head
(cd $W && bash $S/demo.sh >/tmp/demo.log 2>&1) ; rc=$?; grep -A2 -E "^error|panicked" /tmp/demo.log | head -6; (exit $rc); echo "demo with patch rc=$? (want nonzero)"
cd /verif
VERIF_EVIDENCE=/tmp/ev VERIF_REPO=$W ./check.py $prop quick | grep -vE '^\s+\[(proved|agree)' | cut -c1-400; 
git -C $W checkout -q -- .
(cd $W && bash $S/demo.sh >/tmp/demo.log 2>&1) ; rc=$?; grep -A2 -E "^error|panicked" /tmp/demo.log | head -6; (exit $rc); echo "demo without patch rc=$? (want 0)"
