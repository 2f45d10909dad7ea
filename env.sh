# Build environment of the simulators (sourced).
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PATH="/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CI
export CARGO_TARGET_DIR="${VERIF_TARGET:-/verif/target}"
