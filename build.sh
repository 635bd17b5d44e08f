#!/bin/bash
# Builds both variants of the harness from the current tree of /repo. Offline; output in /verif/target.
set -e
cd "$(dirname "$0")"
V=$PWD
export HOME=${HOME:-/root}
[ -f "$HOME/.cargo/env" ] && . "$HOME/.cargo/env"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$V/target RUSTC_WRAPPER=$V/harness/rustc-wrap.sh CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
mkdir -p target
exec 9> target/.lock
flock 9
# cargo decides by modification times; a copy may carry misleading ones, so decide by content
stamp=$( (cd /repo/mbqc_scheduling && find src Cargo.toml xdocs -type f -print0 | sort -z | xargs -0 sha256sum; cd "$V/harness" && find . -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$(cat target/.stamp 2> /dev/null)" != "$stamp" ]; then
  rm -f target/.stamp
  for p in debug release; do
    for f in target/$p/.fingerprint/mbqc_scheduling-* target/$p/.fingerprint/dst-harness-*; do
      [ -d "$f" ] && rm -rf "$V/$f"
    done
  done
  (cd harness && cargo build --offline --locked -q 2> "$V/target/build-debug.log") &
  a=$!
  # separate target directories would compile side by side; cargo serialises within one
  wait $a || { cat target/build-debug.log; exit 2; }
  (cd harness && cargo build --offline --locked -q --release 2> "$V/target/build-release.log") || { cat target/build-release.log; exit 2; }
  echo "$stamp" > target/.stamp
fi
