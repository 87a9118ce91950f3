#!/bin/bash
# Builds the harness against /repo's working tree: build.sh [rotation|random]
# The two variants (leader by rotation, leader by weighted lot) have a target directory each.
export HOME=/root PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_BUILD_TARGET=
unset CARGO_BUILD_TARGET RUSTFLAGS
variant=${1:-rotation}
cd /verif/harness || exit 2
export CARGO_TARGET_DIR=/verif/harness/target/$variant
mkdir -p "$CARGO_TARGET_DIR" || exit 2
# Cargo decides by mtime; decide by content instead.
stamp=$CARGO_TARGET_DIR/.sources
now=$( (cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f \
    \( -name '*.rs' -o -name 'Cargo.toml' -o -path './.cargo/*' \) -print0 | sort -z | xargs -0 sha256sum;
    cd /verif/harness && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
    for d in "$CARGO_TARGET_DIR"/release/.fingerprint/overlord-* "$CARGO_TARGET_DIR"/release/.fingerprint/ovharness-*; do
        [ -d "$d" ] && rm -rf "$d"
    done
fi
features=
[ "$variant" = random ] && features="--features random_leader"
cargo build --release --offline --locked $features >"$CARGO_TARGET_DIR/build.log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
    tail -40 "$CARGO_TARGET_DIR/build.log" >&2
    exit 2
fi
echo "$now" > "$stamp"
