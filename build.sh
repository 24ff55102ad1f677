#!/bin/bash
# Builds a harness from /repo's working tree.
#   build.sh lib|cli OUTDIR -> OUTDIR/harness (native binary), OUTDIR/harness.ll
set -e
CRATE=$1
OUT=$2
REPO=${PFP_REPO:-/repo}
V=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS
WRAPS=""
for f in open64 open write writev read mkdir unlink rename fsync fdatasync ftruncate64 stat64 lstat64 statx isatty getenv getcwd realpath malloc calloc posix_memalign free realloc abort exit; do
  WRAPS="$WRAPS -C link-arg=-Wl,--wrap=$f"
done
gcc -O1 -g -fPIC -c "$V/psym/native.c" -o "$OUT/native.o"
SRC=$OUT/src
mkdir -p "$SRC"
mkdir -p "$SRC/psym" "$SRC/models" "$SRC/harness"
cp -a "$V/psym/." "$SRC/psym/"
cp -a "$V/models/." "$SRC/models/"
if [ "$CRATE" = lib ]; then
  cp -a "$V/harness/." "$SRC/harness/"
else
  cp -a "$V/cli-harness/." "$SRC/harness/"
  cp "$V/harness/src/model.rs" "$V/harness/src/util.rs" "$SRC/harness/src/"
  python3 "$V/cli-harness/prepare.py" "$REPO" "$SRC/harness"
fi
sed -i "s#/repo/#$REPO/#" "$SRC/harness/Cargo.toml"
cp "$REPO/Cargo.lock" "$SRC/harness/Cargo.lock"
cd "$SRC/harness"
RUSTFLAGS="-C save-temps -C no-vectorize-loops -C no-vectorize-slp $WRAPS -C link-arg=$OUT/native.o -C link-arg=-lc" CARGO_TARGET_DIR="$OUT/target" cargo build --release --target x86_64-unknown-linux-gnu 2>"$OUT/build.log" || { grep -E "^error" -A8 "$OUT/build.log" | tail -c 3000 >&2; exit 1; }
BC=$(ls -t "$OUT"/target/x86_64-unknown-linux-gnu/release/deps/harness-*.rcgu.lto.input.bc | head -1)
SYS=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
"$SYS/llvm-dis" "$BC" -o "$OUT/harness.ll"
cp "$OUT/target/x86_64-unknown-linux-gnu/release/harness" "$OUT/harness"
