# Sourced by setup.sh and check.sh: offline toolchain settings, independent of the caller's environment.
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export VERIF_DIR=/verif
unset RUSTDOCFLAGS CARGO_BUILD_TARGET
HARNESS=$VERIF_DIR/harness
# build_bins ARGS...: builds with the hooks on; where the hooks do not compile (for example because
# the code they look into was renamed), builds without them: the checks then observe through the
# public interface only and say so in their evidence.
build_bins() {
    local log; log=$(mktemp)
    if (cd "$HARNESS" && RUSTFLAGS="--cfg verif_hooks" CARGO_TARGET_DIR="$HARNESS/target" \
            cargo build --release --offline "$@") >"$log" 2>&1; then
        BIN_DIR="$HARNESS/target/release"; rm -f "$log"; return 0
    fi
    if (cd "$HARNESS" && RUSTFLAGS="" CARGO_TARGET_DIR="$HARNESS/target-nohooks" \
            cargo build --release --offline "$@") >>"$log" 2>&1; then
        echo "note: the verification hooks did not compile; observing through the public interface only"
        BIN_DIR="$HARNESS/target-nohooks/release"; rm -f "$log"; return 0
    fi
    tail -60 "$log"; rm -f "$log"; return 1
}
# build_program: builds the barbarosa command-line program and sets BARBAROSA_BIN
build_program() {
    local log; log=$(mktemp)
    if (cd /repo/barbarosa && RUSTFLAGS="" CARGO_TARGET_DIR="$HARNESS/target-program" CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true \
            CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true cargo build --release --offline --bin barbarosa) >"$log" 2>&1; then
        export BARBAROSA_BIN="$HARNESS/target-program/release/barbarosa"; rm -f "$log"; return 0
    fi
    tail -60 "$log"; rm -f "$log"; return 1
}
