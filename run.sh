#!/bin/bash
# run.sh <ID> [args]: build the check of property <ID> against /repo's working tree and run it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${VH_TARGET_DIR:-$here/harness/target}"
cd "$here/harness" || exit 3
# Never trust file times: if the content of /repo differs from what was built last, rebuild it.
sum="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)"
stamp="$CARGO_TARGET_DIR/repo.sha256"
if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$sum" ]; then
    cargo clean --offline --quiet -p siderust >/dev/null 2>&1
fi
mkdir -p "$CARGO_TARGET_DIR" && echo "$sum" >"$stamp"
log="$(mktemp)"
if ! cargo build --offline --quiet --bin "$bin" >"$log" 2>&1; then
    tail -40 "$log"; rm -f "$log"
    echo "build failed for $id"; exit 3
fi
rm -f "$log"
cd "$here" && exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
