#!/bin/bash
# Builds the checks once, so that the first check does not have to.
set -eu
cd "$(dirname "$0")"
command -v cargo >/dev/null || export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
# The programs under test: with all run-time checks, but not slowed down by unoptimised cryptography.
export CARGO_PROFILE_DEV_OPT_LEVEL=1
cargo build --offline --manifest-path harness/Cargo.toml --bins --target-dir "$PWD/target"
cargo build --offline --locked --manifest-path /repo/Cargo.toml -p nora_scp -p nora_sshd --target-dir "$PWD/target/repo"
