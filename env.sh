export RUSTUP_TOOLCHAIN=nightly-2026-07-07-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target PATH=/root/.cargo/bin:$PATH RUSTC_WRAPPER= RUSTFLAGS=
