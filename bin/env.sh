# Sourced by every check: same compiler settings as the repository's own build, output under /verif/target,
# and a copy of the C compiler cache (a miss only costs time).
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target
export HODU_DISABLE_NATIVE=1
export CCACHE_DIR=/verif/target/ccache CCACHE_COMPILERCHECK=content
export CC="ccache cc"
export OPENBLAS_NUM_THREADS=1
mkdir -p /verif/target
[ -d "$CCACHE_DIR" ] || cp -a /opt/vp/ccache "$CCACHE_DIR" 2>/dev/null || mkdir -p "$CCACHE_DIR"
