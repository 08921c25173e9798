#!/bin/bash
# Builds and runs the demonstration program beside this file against /repo; exits 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root CARGO_HOME=/root/.cargo PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$here/flash.rs" "$d/src/"
cs=std # unless the program brings its own critical section
grep -q set_impl "$here/main.rs" && cs=restore-state-bool
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
sequential-storage = { path = "$PWD", features = ["alloc", "arrayvec", "heapless", "heapless-09", "postcard", "shared-ram-ring"] }
embedded-storage-async = "0.4.1"
critical-section = { version = "1", features = ["$cs"] }
heapless = "0.8.0"
heapless_09 = { package = "heapless", version = "0.9.0" }
arrayvec = { version = "0.7.4", default-features = false }
[profile.dev]
debug = 0
T
cd "$d" || exit 99
timeout 200 cargo build --offline -q || { echo "demo does not build"; exit 98; }
timeout 60 ./target/debug/demo
