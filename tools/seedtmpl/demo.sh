#!/bin/bash
# Exit 0 when the behaviour described in meta.json holds, nonzero otherwise. Run with cwd /repo.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
tar xzf "$here/demo.tgz" -C "$tmp"
d="$tmp"; [ -d "$tmp/ark" ] && d="$tmp/ark"
mkdir -p "$d/src"; cp "$here/main.rs" "$d/src/main.rs"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$tmp/target"
cd "$d"
cargo run --release --offline --locked -q
