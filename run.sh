#!/bin/bash
# Build the simulator from /repo's working tree and run one command of it:
#   ./run.sh build | check P01 | replay FILE | determinism [P [RUNS]] | show P SEED TIER IDX
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
main="$here/sim/target"
# the library with its precision-true-peak feature, which only the true peaks depend on
precise="$here/sim/target/precise"
mkdir -p "$precise" "$here/evidence"

# build TARGET_DIR [cargo options]
build() {
    local dir="$1"
    shift
    (
        flock 9
        export CARGO_TARGET_DIR="$dir"
        # Modification times say nothing about a tree that was copied or patched: compare contents
        sum="$(cd /repo && find src Cargo.toml build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)"
        stamp="$dir/repo.sum"
        if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
            rm -f "$stamp"
            (cd "$here/sim" && cargo clean --offline --release -p ebur128 -p ebusim >/dev/null 2>&1)
        fi
        if ! (cd "$here/sim" && cargo build --offline --locked --release --quiet "$@" 2>"$dir/build.log"); then
            cat "$dir/build.log" >&2
            exit 1
        fi
        echo "$sum" >"$stamp"
    ) 9>"$dir/lock"
}

must_build() {
    if ! build "$@"; then
        echo "the simulator does not build against /repo" >&2
        exit 3
    fi
}

case "${1:-}" in
build)
    must_build "$main"
    must_build "$precise" --features precise
    exit 0
    ;;
replay)
    if grep -q '^# variant precise' "${2:-/dev/null}" 2>/dev/null; then
        must_build "$precise" --features precise
        exec "$precise/release/ebusim" "$@"
    fi
    ;;
check)
    if [ "${2:-}" = P05 ]; then
        rm -f "$main/P05-precise.json"
        must_build "$precise" --features precise
        runs="${VERIF_RUNS:-1500}"
        [ "${VERIF_TIER:-}" = thorough ] && runs="${VERIF_RUNS:-10000}"
        VERIF_RUNS="$runs" VERIF_CAP="${VERIF_CAP:-150}" "$precise/release/ebusim" "$@" || exit $?
    fi
    ;;
esac
must_build "$main"
exec "$main/release/ebusim" "$@"
