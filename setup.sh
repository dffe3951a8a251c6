#!/bin/bash
# builds the symbolic engine (offline); every check also does this itself
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cd "$(dirname "$0")/engine" && exec cargo build --release --offline --quiet
