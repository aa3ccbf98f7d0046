#!/bin/bash
# Links main.rs (beside this file) against the crate just built in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true SIDERUST_JPL_STUB=all
deps="${DEMO_DEPS:-$repo/target/debug/deps}"
lib="$(ls -t "$deps"/libsiderust-*.rlib 2>/dev/null | head -1)"
if [ -n "$lib" ] && rustc --edition 2021 -o "$w/demo" "$here/main.rs" --extern siderust="$lib" -L dependency="$deps" 2>"$w/err"; then
    "$w/demo"; exit $?
fi
# no usable build products: build the crate as a dependency
mkdir "$w/src"; cp "$here/main.rs" "$w/src/main.rs"; cp "$repo/Cargo.lock" "$w/Cargo.lock"
printf '[workspace]\n[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nsiderust = { path = "%s", features = [FEATURES] }\n[profile.dev]\ndebug = false\n' "$repo" >"$w/Cargo.toml"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo run --offline --quiet
