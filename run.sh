#!/bin/bash
# Build the checker from the current tree of /repo and run one property.
# usage: run.sh <property> [quick|thorough]   |   run.sh --build
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence"
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9

build() { # <crate directory> <target directory>
    # Cargo decides by modification times; force a rebuild whenever the content differs.
    local sum old
    mkdir -p "$2"
    sum="$(find /repo/programs /repo/lib /repo/Cargo.toml "$here/mc" "$here/cl/stubs" "$here/$1" -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 \
        | sort -z | xargs -0 sha256sum | sha256sum)"
    old="$(cat "$2/.sources" 2>/dev/null)"
    if [ "$sum" != "$old" ]; then
        rm -f "$2/.sources"
        find "$2/release/.fingerprint" -maxdepth 1 \
            \( -name 'openbook-v2-*' -o -name 'obmc-*' -o -name 'obcl-*' -o -name 'obcx-*' \) -exec rm -rf {} + 2>/dev/null
    fi
    (cd "$here/$1" && CARGO_TARGET_DIR="$2" cargo build --release --offline --locked >"$2/build.log" 2>&1) || {
        tail -40 "$2/build.log" >&2
        echo "build failed" >&2
        return 1
    }
    echo "$sum" >"$2/.sources"
}

bundle() { # the TypeScript client with the program that drives it
    mkdir -p "$CARGO_TARGET_DIR/ts"
    node "$here/ts/bundle.mjs" "$CARGO_TARGET_DIR/ts/host.mjs" >"$CARGO_TARGET_DIR/ts/build.log" 2>&1 || {
        tail -40 "$CARGO_TARGET_DIR/ts/build.log" >&2
        echo "bundling failed" >&2
        return 1
    }
}

if [ "${1:-}" = "--build" ]; then
    bundle
    build cl "$CARGO_TARGET_DIR/cl"
    build cx "$CARGO_TARGET_DIR/cx"
    build mc "$CARGO_TARGET_DIR" || exit 3
    exit 0
fi
case "$1" in
    C36 | C37 | C38) crate=cl bin=obcl target="$CARGO_TARGET_DIR/cl" ;;
    C44 | C45 | C46 | C47 | C48 | C49 | C50) crate=cx bin=obcx target="$CARGO_TARGET_DIR/cx" ;;
    *) crate=mc bin=obmc target="$CARGO_TARGET_DIR" ;;
esac
case "$1" in
    C39 | C40 | C41 | C42 | C43 | C51) bundle || exit 3 ;;
esac
build $crate "$target" || exit 3
export OBMC_OUT="$here/evidence" OBMC_KNOWN="$here/known-findings.txt" OBMC_TS="$CARGO_TARGET_DIR/ts/host.mjs"
"$target/release/$bin" check "$1" "${2:-${VERIF_TIER:-quick}}"
rc=$?
case $rc in
    132 | 134 | 135 | 136 | 139)
        # the code under test brought the process down (stack overflow, invalid access)
        echo "crash with status $rc" >"$OBMC_OUT/$1.replay.txt"
        echo "VIOLATION property=$1 replay=$OBMC_OUT/$1.replay.txt"
        exit 1
        ;;
esac
exit $rc
