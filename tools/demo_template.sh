#!/bin/bash
# builds the demonstration beside this script against the repository in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
{
  printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
  sed "s#@REPO@#$repo#" "$here/DEPS"
  printf '[profile.dev]\nopt-level = 1\ndebug-assertions = false\noverflow-checks = false\n'
} > "$d/Cargo.toml"
cd "$d" && cargo run --offline -q --target-dir "$d/target"
