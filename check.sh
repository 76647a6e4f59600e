#!/bin/bash
# check.sh build            build everything
# check.sh <ID>             build what the check of property <ID> needs from /repo's working tree, and run it
# check.sh replay <file>    run one recorded case again
# Exit: 0 held, 1 violation, 2 no answer (build failure, harness trouble).
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
T="$VERIF_ROOT/target"
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$T/bin"

fail() { echo "ERROR $*"; exit 2; }

exec 9>"$T/.lock"
flock 9

HASH=$(cd "$REPO" && find src Cargo.toml Cargo.lock build.rs .cargo -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -c1-16)

# forget build products of other contents: file times alone do not tell
stale() { [ "$(cat "$T/$1.hash" 2>/dev/null)" != "$HASH" ]; }

build_indexer() {
    export VERIF_BIN="$T/bin/bitcoin-indexer-$HASH"
    if [ ! -x "$VERIF_BIN" ]; then
        (
            export CARGO_TARGET_DIR="$T/repo" RUSTFLAGS="--cfg verif_hooks" CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
            if stale repo; then rm -f "$T/repo.hash"; cargo clean --offline -q -p bitcoin-indexer --manifest-path "$REPO/Cargo.toml" 2>/dev/null; fi
            cargo build --offline --locked -q --bins --manifest-path "$REPO/Cargo.toml" 2>"$T/repo.log" || { tail -30 "$T/repo.log"; exit 1; }
            echo "$HASH" >"$T/repo.hash"
        ) || fail "the program does not build"
        rm -f "$T"/bin/bitcoin-indexer-*
        cp "$T/repo/debug/bitcoin-indexer" "$VERIF_BIN.tmp" && mv "$VERIF_BIN.tmp" "$VERIF_BIN" || fail "no program built"
    fi
    export VERIF_SHIM="$T/bin/shim.so"
    for l in shim heap; do
        if [ ! -e "$T/bin/$l.so" ] || [ "$VERIF_ROOT/shim/$l.c" -nt "$T/bin/$l.so" ]; then
            gcc -O1 -fPIC -shared -w -o "$T/bin/$l.so" "$VERIF_ROOT/shim/$l.c" -ldl || fail "the shim does not build"
        fi
    done
    CARGO_TARGET_DIR="$T/bb" cargo build --offline --locked -q --manifest-path "$VERIF_ROOT/bb/Cargo.toml" 2>"$T/bb.log" || { tail -30 "$T/bb.log"; fail "the harness does not build"; }
}

build_ib() { # $1: binary; fails if the harness does not compile against this tree
    (
        export CARGO_TARGET_DIR="$T/ib" RUSTFLAGS="--cfg verif_hooks" CARGO_INCREMENTAL=0
        ln -sfn "$REPO/src" "$T/src"
        if stale ib; then rm -f "$T/ib.hash"; cargo clean --offline -q -p subject --manifest-path "$VERIF_ROOT/ib/Cargo.toml" 2>/dev/null; fi
        cargo build --offline --locked -q --bin "$1" --manifest-path "$VERIF_ROOT/ib/Cargo.toml" 2>"$T/ib.log" || exit 1
        echo "$HASH" >"$T/ib.hash"
    )
}

run() { # id
    local id="$1"
    build_indexer
    cmd="$T/bb/debug/bb"
    case "$id" in
    C11 | C12 | C17 | C19 | C20)
        # the in-process harness calls private items; where their form changed, what the running program shows is judged alone
        if build_ib "${id,,}"; then
            cmd="$T/ib/debug/${id,,}"
        else
            tail -20 "$T/ib.log"
            echo "NOTE the in-process sections of $id do not compile on this tree; judging the running program only"
        fi
        ;;
    esac
}

case "$1" in
build)
    build_indexer
    for b in c11 c12 c17 c19 c20; do build_ib $b || { tail -20 "$T/ib.log"; echo "NOTE the in-process harness $b does not build on this tree"; }; done
    ;;
replay)
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || fail "cannot read $2"
    file=$(realpath "$2")
    run "$id"
    flock -u 9; exec 9>&-
    "$cmd" replay "$file"
    code=$?
    case $code in 132 | 134 | 135 | 136 | 139) echo "VIOLATION property=$id replay=$file"; code=1 ;; esac
    exit $code
    ;;
C*)
    run "$1"
    flock -u 9; exec 9>&-
    "$cmd" "$1"
    code=$?
    case $code in
    132 | 134 | 135 | 136 | 139)
        # code under test ended the harness (abort, overflowing stack, wild access): find the case
        if [[ "$cmd" == */ib/* ]]; then
            echo "NOTE status $code; looking for the case that ends the process"
            trace=$(mktemp -d "$T/trace.XXXXXX")
            VERIF_TRACE="$trace" "$cmd" "$1"
            code=$?
            if [ $code -ge 128 ]; then
                for f in "$trace"/*.json; do
                    VERIF_REPLAYS=3 "$cmd" replay "$f" >/dev/null 2>&1
                    if [ $? -ge 128 ]; then
                        mkdir -p "$VERIF_ROOT/replays"
                        keep="$VERIF_ROOT/replays/$1-ended-$(sha256sum <"$f" | cut -c1-8).json"
                        cp "$f" "$keep"
                        echo "this case ends the whole process"
                        echo "VIOLATION property=$1 replay=$keep"
                        code=1
                        break
                    fi
                done
            fi
            rm -rf "$trace"
        fi
        ;;
    esac
    case $code in 0 | 1) exit $code ;; *) echo "ERROR the check ended with status $code"; exit 2 ;; esac
    ;;
*)
    fail "usage: check.sh build | <ID> | replay <file>"
    ;;
esac
