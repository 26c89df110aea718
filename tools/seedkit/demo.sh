#!/bin/bash
# Builds the crate in the current directory (with the in-memory stand-ins in kit/) and runs main.rs on it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap '/bin/rm -rf "$work"' EXIT
cp -r "$here/kit" "$work/kit" || exit 2
mkdir -p "$work/core" "$work/demo/src"
cp "$here/main.rs" "$work/demo/src/main.rs"
cp "$here/kit/prelude.rs" "$work/demo/src/prelude.rs"
cp "$here/kit/Cargo.lock.txt" "$work/demo/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/kit/core.toml" > "$work/core/Cargo.toml"
if [ -e "$here/kit/node.toml" ]; then
  mkdir "$work/node"
  sed "s#@REPO@#$repo#" "$here/kit/node.toml" > "$work/node/Cargo.toml"
  cp "$here/kit/js.rs" "$work/demo/src/js.rs"
fi
if [ -e "$here/kit/tools.toml" ]; then
  mkdir "$work/tools"
  sed "s#@REPO@#$repo#" "$here/kit/tools.toml" > "$work/tools/Cargo.toml"
  mkdir "$work/files"
  export TMPDIR="$work/files"
fi
cp "$here/kit/demo.toml" "$work/demo/Cargo.toml"
cd "$work/demo" || exit 2
export CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=stable RUSTFLAGS="-Awarnings"
cargo build -q --offline || exit 3
timeout 60 "$work/target/debug/demo"
