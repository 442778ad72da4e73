# Build environment shared by setup, check and replay.
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export RUSTUP_TOOLCHAIN=1.77.2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS
MC_VERIF="$(pwd)"
export MC_VERIF
BUILD="$MC_VERIF/.build"
MC="$BUILD/harness/release/mc"

export TWIGGY="$BUILD/cli/debug/twiggy"

# The command itself, for the checks that run it.
build_cli() {
  mkdir -p "$BUILD"
  cargo build --quiet --offline --manifest-path /repo/Cargo.toml -p twiggy --target-dir "$BUILD/cli" >"$BUILD/cli.log" 2>&1 || {
    cat "$BUILD/cli.log" >&2
    return 1
  }
}

build_harness() {
  mkdir -p "$BUILD"
  cargo build --quiet --release --offline --manifest-path harness/Cargo.toml --target-dir "$BUILD/harness" >"$BUILD/harness.log" 2>&1 || {
    cat "$BUILD/harness.log" >&2
    return 1
  }
}

# The web API as a WebAssembly module.
export TWIGGY_WASM="$BUILD/web/wasm32-unknown-unknown/release/twiggy_wasm_api.wasm"
build_web() {
  mkdir -p "$BUILD"
  cargo build --quiet --offline --release --target wasm32-unknown-unknown --manifest-path /repo/Cargo.toml -p twiggy-wasm-api --target-dir "$BUILD/web" >"$BUILD/web.log" 2>&1 || {
    cat "$BUILD/web.log" >&2
    return 1
  }
}
