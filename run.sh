#!/bin/bash
# run.sh setup | check <property> [quick|thorough] [part] | replay <file>
# Builds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")/harness" || exit 2
export HOME="${HOME:-/root}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTC_WRAPPER CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET_DIR
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
T=/verif/target
mkdir -p $T || exit 2
# cargo decides by modification times; decide by content, so that a file which got an older
# time stamp is still recompiled (dropping the fingerprints keeps the incremental data).
HASH=$({ find /repo/akasa-core /repo/akasa -path '*/target' -prune -o -type f -print0; find ../mqtt-proto src cli stubs Cargo.toml .cargo -type f -print0; } | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$HASH" != "$(cat $T/sources.sha256 2>/dev/null)" ]; then
    rm -rf /verif/target/debug/.fingerprint/akasa-* /verif/target/debug/.fingerprint/verif-harness-* /verif/target/debug/.fingerprint/mqtt-proto-*
fi
if ! cargo build --offline > $T/build.log 2>&1; then
    tail -60 $T/build.log
    echo "the harness does not build against this tree: no answer"
    exit 2
fi
# the command line program (C32)
case "$1:$2" in
setup:* | replay:* | check:C32)
    if ! cargo build --offline -p akasa > $T/build-cli.log 2>&1; then
        tail -60 $T/build-cli.log
        if [ "$1" = check ]; then
            echo "the command line program does not build against this tree: no answer"
            exit 2
        fi
    fi ;;
esac
echo "$HASH" > $T/sources.sha256
[ "$1" = setup ] && exit 0
exec $T/debug/verif "$@"
