#!/bin/bash
# Extract the type-checked program of /repo's current working tree into build/thir/*.json.
# Usage: extract.sh [REPO] [OUTDIR]
set -eu
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${1:-/repo}"
OUT="${2:-$V/build/thir}"
B="$V/build"
mkdir -p "$B" "$OUT"
exec 9>"$B/.lock"; flock 9
export PATH="$HOME/.cargo/bin:$PATH"
SYS="$(rustc +nightly --print sysroot)"
if [ ! -x "$B/thirdump" ] || [ "$V/driver/main.rs" -nt "$B/thirdump" ]; then
  rustc +nightly -O --edition 2021 "$V/driver/main.rs" -o "$B/thirdump.tmp" >"$B/driver.log" 2>&1 || { cat "$B/driver.log"; exit 3; }
  mv "$B/thirdump.tmp" "$B/thirdump"
fi
rm -f "$OUT"/*.json
T="$B/target"
for c in fri kzg plonk nova; do rm -rf "$T"/debug/.fingerprint/$c-* "$T"/debug/build/$c; done
cd "$REPO"
LD_LIBRARY_PATH="$SYS/lib" RUSTC_WORKSPACE_WRAPPER="$B/thirdump" VERIF_THIR_DIR="$OUT" \
  CARGO_TARGET_DIR="$T" CARGO_INCREMENTAL=0 RUSTFLAGS="--cap-lints allow" \
  cargo +nightly check --workspace --lib --offline >"$B/cargo.log" 2>&1 || { tail -40 "$B/cargo.log"; exit 4; }
