#!/bin/bash
# Compiles the real source files of the repository (cwd) together with demo.rs, against stand-ins for V8 where
# they need it, and runs the result: exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$T"' EXIT
sed "s#@REPO@#$PWD#g" "$D/demo.rs" > "$T/demo.rs"
X=(--edition 2024 -Awarnings -Copt-level=1)
for c in v8 tracing; do
  if [ -f "$D/$c.rs" ]; then
    rustc "${X[@]}" --crate-type rlib --crate-name "$c" -o "$T/lib$c.rlib" "$D/$c.rs" || exit 8
    X+=(--extern "$c=$T/lib$c.rlib")
  fi
done
TGT=x86_64-unknown-linux-gnu
DEPS=/opt/vp/harness/target/$TGT/debug/deps
if grep -q tokio "$D/demo.rs"; then
  X+=(--target $TGT -L "dependency=$DEPS" -L dependency=/opt/vp/harness/target/debug/deps --extern "tokio=$(ls -t $DEPS/libtokio-*.rlib | head -1)" --extern "bytes=$(ls -t $DEPS/libbytes-*.rlib | head -1)")
fi
rustc "${X[@]}" -o "$T/demo" "$T/demo.rs" || exit 8
timeout 100 "$T/demo" 2> "$T/err"
rc=$?
tail -3 "$T/err"
exit $rc
