#!/bin/bash
# Builds the simulator against the current tree of /repo. Output: sim/target/sim-<hash of all inputs>.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="${SIM_REPO:-/repo}"
out="$here/target"
mkdir -p "$out"
rc="$(command -v rustc || echo /root/.cargo/bin/rustc)"
kc=$( (cat "$here"/core/*.rs "$here"/core/props/*.rs; "$rc" -vV) | sha256sum | cut -c1-16)
ks=$( (cd "$repo" && find src -name '*.rs' -type f | LC_ALL=C sort | xargs cat; find "$repo/src" -name '*.rs' -type f | LC_ALL=C sort; "$rc" -vV; cat "$here/build.sh") | sha256sum | cut -c1-16)
kg=$( (echo "$kc $ks"; cat "$here"/glue/*) | sha256sum | cut -c1-16)
bin="$out/sim-$kg"
if [ ! -x "$bin" ]; then
  core="$out/core-$kc"; sut="$out/sut-$ks"
  pids=()
  if [ ! -f "$core/libsimcore.rlib" ]; then
    ( mkdir -p "$core.$$" && RUSTC_BOOTSTRAP=1 "$rc" --edition 2021 --crate-type rlib --crate-name simcore "$here/core/lib.rs" -Copt-level=2 -Ccodegen-units=8 -Awarnings --out-dir "$core.$$" && { mv -T "$core.$$" "$core" 2>/dev/null || true; } ) & pids+=($!)
  fi
  if [ ! -f "$sut/libsut.rlib" ]; then
    ( mkdir -p "$sut.$$" && "$rc" --edition 2021 --crate-type rlib --crate-name sut "$repo/src/main.rs" --cfg dst -Copt-level=1 -Cdebug-assertions=on -Coverflow-checks=on -Ccodegen-units=1 \
        -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Awarnings --out-dir "$sut.$$" && { mv -T "$sut.$$" "$sut" 2>/dev/null || true; } ) & pids+=($!)
  fi
  for p in "${pids[@]}"; do wait "$p"; done
  # the entry points of today that this tree still has
  {
    echo 'use sut::parser::functions::Functions; pub type F = fn(&mut PythonCoreParser) -> Result<Box<ASTNode>, String>;'
    echo 'pub static METHODS: &[(&str, F)] = &['
    while read -r m; do
      if grep -qE "fn $m\(&mut self\) *-> *Result<Box<ASTNode>, *String>" "$repo"/src/parser/*.rs; then echo "    (\"$m\", |p| p.$m()),"; fi
    done < "$here/glue/methods.txt"
    echo '];'
  } > "$bin.methods.$$"
  glue() { SIM_METHODS="$1" "$rc" --edition 2021 --crate-type bin --crate-name sim "$here/glue/main.rs" -Copt-level=1 -Ccodegen-units=1 -Awarnings --extern simcore="$core/libsimcore.rlib" --extern sut="$sut/libsut.rlib" -o "$bin.$$"; }
  if ! glue "$bin.methods.$$" 2> "$bin.err.$$"; then
    # an inner entry point may have moved out of reach: go on without them
    (head -2 "$bin.methods.$$"; echo '];') > "$bin.none.$$"
    if ! glue "$bin.none.$$"; then cat "$bin.err.$$" >&2; exit 1; fi
    cp "$bin.err.$$" "$out/methods.err"; rm -f "$bin.none.$$"
  fi
  rm -f "$bin.err.$$"
  rm -f "$bin.methods.$$"
  mv "$bin.$$" "$bin"
fi
echo "$bin"
