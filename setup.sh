#!/bin/bash
# Build every check against /repo's working tree, offline.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${VH_TARGET_DIR:-$here/harness/target}"
cd "$here/harness" && cargo build --offline --bins
cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64 >"$CARGO_TARGET_DIR/repo.sha256"
