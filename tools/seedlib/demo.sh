#!/bin/bash
# Builds the crate from the working directory and runs the demonstration beside this file.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
r="rustc --edition 2021 --cap-lints allow"
$r --crate-type rlib --crate-name libyaml_safer -o "$t/liblibyaml_safer.rlib" src/lib.rs || exit 3
if grep -q '^ .*\(parser\|emitter\)_output' "$d/demo.rs"; then
  for p in parser emitter; do
    $r --crate-name run_$p --extern libyaml_safer="$t/liblibyaml_safer.rlib" -o "$t/$p" src/bin/run-$p-test-suite.rs || exit 3
  done
  export PARSER_PROGRAM=$t/parser EMITTER_PROGRAM=$t/emitter
fi
$r --extern libyaml_safer="$t/liblibyaml_safer.rlib" -o "$t/demo" "$d/demo.rs" || exit 3
ulimit -v 4000000
timeout 30 "$t/demo"
