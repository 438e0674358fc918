# Environment of the harness builds. Sourced by the scripts in this directory.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$VERIF_ROOT/target"
export CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
# the vendored OpenSSL of /repo's own build saves a minute; without it openssl-sys builds it again
for d in /repo/target/debug/build/openssl-sys-*/out/openssl-build/install; do
  if [ -f "$d/lib/libcrypto.a" ] || [ -f "$d/lib64/libcrypto.a" ]; then
    export OPENSSL_NO_VENDOR=1 OPENSSL_STATIC=1 OPENSSL_DIR="$d"
    break
  fi
done
