#!/bin/bash
# build.sh [empty]: builds the harness against /repo's working tree; "empty": without private hooks
set -e
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin${PATH:+:$PATH}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
V="$(cd "$(dirname "$0")/.." && pwd)"
B="$V/.build"
mkdir -p "$B"
CARGO_TARGET_DIR="$B/extract" cargo build -q --offline --manifest-path "$V/tools/extract/Cargo.toml" 2>"$B/extract.log" || { cat "$B/extract.log"; exit 3; }
X="$B/extract/debug/hd-extract"
"$X" hooks "${HD_REPO:-/repo}" "$V/harness/hooks.spec" "$B/hooks" $1
HONGDOWN_VERIF_DIR="$B/hooks" RUSTFLAGS="--cfg hongdown_verif" CARGO_TARGET_DIR="$B/harness" \
  cargo build -q --offline --manifest-path "$V/harness/Cargo.toml" 2>"$B/harness.log"
# the program itself, for the checks that run it
if [ -n "$HD_BUILD_CLI" ]; then
  CARGO_TARGET_DIR="$B/cli" cargo build -q --offline --manifest-path "${HD_REPO:-/repo}/Cargo.toml" --bin hongdown 2>"$B/cli.log"
fi
