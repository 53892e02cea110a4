# Sourced by setup.sh and check.sh: offline toolchain settings, build output under /verif/target (git-ignored).
export HOME=/root
export PATH=/verif/tools/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR
