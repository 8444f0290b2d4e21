. /verif/env.sh; cd /verif/engine && CARGO_TARGET_DIR=/verif/target/engine cargo build --release --offline 2>&1 | grep -E '^error' -A8
