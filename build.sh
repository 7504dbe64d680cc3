#!/bin/bash
# build.sh [all]: build the harness with /repo's working tree; with `all`, the macro of incompiler too.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
build() {
    # $1: directory, $2: its package
    cd "$here/$1" || exit 2
    # cargo goes by file times; go by content as well
    now=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    was=$(cat target/repo.sha256 2>/dev/null)
    if [ -d target/release ] && [ "$now" != "$was" ]; then
        rm -f target/repo.sha256
        cargo clean --release --offline -p venial -p "$2" || exit 2
    fi
    cargo build --release --offline || exit 2
    echo "$now" > target/repo.sha256
}
build harness vpbt
if [ "${1:-}" = all ]; then
    build incompiler vpmac
fi
