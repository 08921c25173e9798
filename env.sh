export HOME=/root CARGO_HOME=/root/.cargo
export PATH="/root/.cargo/bin:$PATH"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=

# which program checks a property, and how it is built
program() {
  case $1 in
    P21 | P22) prog=simx; feat="--features extra" ;;
    *) prog=sim; feat= ;;
  esac
}
build() {
  mkdir -p .build
  cargo build --release --offline --manifest-path sim/Cargo.toml --target-dir .build/target --bin $prog $feat
}
