#!/bin/bash
# run.sh <property-id>   build the monitors against /repo's working tree and run one property
# run.sh --build         only build
# run.sh --replay FILE   re-run the single case recorded in FILE
VERIF="$(cd "$(dirname "$0")" && pwd)"
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=${B2MON_TOOLCHAIN:-stable}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
H="$VERIF/harness"
BIN="$H/target/release/b2mon"

content_hash() {
    {
        cat /repo/Cargo.toml
        (cd /repo && find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum)
        (cd "$H" && find src Cargo.toml Cargo.lock -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum)
    } | sha256sum | cut -d' ' -f1
}

build() {
    mkdir -p "$H/target"
    exec 9>"$H/target/.b2mon.lock"
    flock 9
    local want have
    want="$(content_hash)"
    have="$(cat "$H/target/b2mon.stamp" 2>/dev/null)"
    if [ "$want" != "$have" ] || [ ! -x "$BIN" ]; then
        rm -f "$H/target/b2mon.stamp"
        # cargo judges freshness by mtime; a file restored with an old mtime would be missed
        find "$H/target/release/.fingerprint" -maxdepth 1 \( -name 'box2d-rs-*' -o -name 'b2mon-*' \) -exec rm -rf {} + 2>/dev/null
        if ! (cd "$H" && cargo build --release --offline) >"$H/target/build.log" 2>&1; then
            grep -A8 '^error' "$H/target/build.log" | head -60
            echo "BUILD-ERROR (see $H/target/build.log)"
            exit 4
        fi
        echo "$want" >"$H/target/b2mon.stamp"
    fi
    exec 9>&-
}

case "$1" in
    --build) build; exit 0 ;;
    --replay) build; exec "$BIN" replay "$2" ;;
    *) build; exec "$BIN" run "$1" --root "$VERIF" ;;
esac
