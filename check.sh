#!/bin/bash
# usage: check.sh <PROPERTY-ID> | replay <file> | build
# Builds the harness against /repo's current working tree (release profile, offline) and runs
# one property. VERIF_SEED and VERIF_TIER (quick|thorough) are read by the harness.
cd /verif/harness || exit 2
. /opt/vp/env.sh 2>/dev/null || export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0 RUSTFLAGS=
unset CARGO_TARGET_DIR

module() { # property -> the harness module that decides it
    sed -n "s/^\/\/ module \([a-z_]*\):.*\b$1\b.*/\1/p" src/props/mod.rs | head -1
}

build() { # cargo arguments, target directory; sets BIN
    local args=$1 dir=$2 log
    log=$(mktemp)
    if [ "$dir" = target-debug ]; then # the library's own assertions and overflow checks armed
        export CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true
    else
        unset CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS
    fi
    if cargo build --release --offline --locked -q --target-dir "$dir" $args >"$log" 2>&1; then
        rm -f "$log"; BIN=$PWD/$dir/release/harness; export HARNESS_CLI=$PWD/$dir/release/lbf_cli; return 0
    fi
    cat "$log" >&2; rm -f "$log"; return 1
}

bins() { # property -> the programs it needs
    echo --bin harness
    [ "$1" = C20 ] && echo --bin lbf_cli
}

run() { # property, extra features, target directory
    local m
    if ! build "$(bins "$1") ${2:+--features $2}" "$3"; then
        # an unrelated module may no longer compile against the tree: build only what this property needs
        m=m_$(module "$1")
        echo "full build failed; retrying with only module $m" >&2
        build "$(bins "$1") --no-default-features --features $m${2:+,$2}" "$3" ||
            { echo "ERROR: harness does not build against /repo" >&2; return 2; }
    fi
    "$BIN" "$1"
}

case "$1" in
build)
    build "--bin harness --bin lbf_cli" target || exit 2
    exit 0 ;;
replay)
    id=$(sed -n 's/^ *"property": "\(C[0-9]*\)".*/\1/p' "$2")
    feats=""; dir=target
    grep -q '"build": "double-precision"' "$2" && { feats="--features dp"; dir=target-dp; }
    grep -q '"build": "debug-assertions"' "$2" && dir=target-debug
    build "$(bins "$id") $feats" $dir || exit 2
    exec "$BIN" replay "$2" ;;
C22)
    run C22 "" target-debug || exit $?
    exit 0 ;;
C[0-9]*)
    run "$1" "" target || exit $?
    if [ "$1" = C02 ]; then
        # the library searches piers far less exhaustively in this build: many more cases fit
        HARNESS_SUB=piers HARNESS_SCALE=100 run C02 "" target-debug || exit $?
    fi
    if [ "$VERIF_TIER" = thorough ]; then
        # the same property in the library's double precision configuration
        run "$1" dp target-dp || exit $?
    fi
    exit 0 ;;
*)
    echo "usage: check.sh <PROPERTY-ID> | replay <file> | build" >&2; exit 2 ;;
esac
