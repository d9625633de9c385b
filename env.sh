export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
export CARGO_NET_OFFLINE=true
export PYO3_PYTHON=/usr/bin/python3.12
unset CARGO_TARGET_DIR RUSTFLAGS LD_LIBRARY_PATH
