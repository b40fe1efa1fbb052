# Sourced by every script of /verif: same toolchain as /repo's own build, no network.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR

# The Python module, built from /repo's working tree and staged as a package in pystage/.
build_python() {
  PYO3_PYTHON=/opt/vp/venv/bin/python cargo build --release --offline --lib --features python,parallel \
    --manifest-path /repo/Cargo.toml --target-dir "$here/pytarget" || return 1
  /bin/rm -rf "$here/pystage" && mkdir "$here/pystage" || return 1
  cp -r /repo/python/symb_anafis "$here/pystage/" || return 1
  cp "$here/pytarget/release/libsymb_anafis.so" "$here/pystage/symb_anafis/symb_anafis.so"
}
