export PATH="/usr/local/cargo/bin:$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin${PATH:+:$PATH}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never LANG=C.UTF-8
export LLVM_SYS_140_PREFIX=/usr/lib/llvm-14 PYO3_PYTHON=/usr/bin/python3.12
export RUSTFLAGS="--cfg tket_verif" CARGO_TARGET_DIR=/verif/build/target
unset RUSTC_WRAPPER
