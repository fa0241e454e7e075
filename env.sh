# Sourced by the build and the checks: the toolchain the repository builds with, offline.
export HOME=/root
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu
export RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1
# -Zsanitizer with the stable compiler the repository pins
export RUSTC_BOOTSTRAP=1
export RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes --cfg vp_hooks"
export RUSTC_WRAPPER=/verif/harness/rustc-wrap.sh
unset RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
