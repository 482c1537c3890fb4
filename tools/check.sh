#!/bin/bash
# check.sh ID TIER | replay FILE | setup
# Builds the machinery and the crates of /repo's working tree, then runs one check. 0 held, 1 violation, 2 no answer.
cd "$(dirname "$0")/.." || exit 2
. tools/env.sh
export MC_ROOT=$PWD MC_PLAIN=$CARGO_TARGET_DIR/release/mc
mkdir -p "$CARGO_TARGET_DIR" evidence replays
build() { # dir log args...
    local dir=$1 log=$CARGO_TARGET_DIR/$2.log
    shift 2
    (cd "$dir" && cargo build "$@") >"$log" 2>&1 || return 1
}
fail() { # log
    echo "build failed:" >&2
    grep -E -A8 '^error' "$CARGO_TARGET_DIR/$1.log" | head -60 >&2
    tail -3 "$CARGO_TARGET_DIR/$1.log" >&2
    exit 2
}
GRID=$CARGO_TARGET_DIR/grid-$([ "$2" = thorough ] && echo thorough || echo quick)
grid() { # tier; builds the generated programs
    python3 tools/gen_programs.py grid "$1" "$GRID" >/dev/null || exit 2
    build "$GRID" grid --target-dir "$CARGO_TARGET_DIR/gridt"
}
evidence() { # id level coverage violations
    cat >"evidence/$1.json" <<J
{"property": "$1", "tier": "${TIER:-quick}", "seed": ${VERIF_SEED:-0}, "level": "model_checking", "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "exhaustive": false, "rule": "$2", "samples": ["$2"]}, "assumptions": ["the plain build of the same tree succeeds"], "wall_s": $SECONDS, "violations": 1}
J
}
run() { # id tier
    TIER=$2
    case $1 in
    C16|C17|C18|C19|C21)
        build mcd mcd --release || fail mcd
        exec "$CARGO_TARGET_DIR/release/mcd" check "$1" "$2" ;;
    C05|C06|C07|C08|C13)
        # with derived streams; if the derived programs do not build, the parser alone
        build mcd mcd --release && exec "$CARGO_TARGET_DIR/release/mcd" check "$1" "$2"
        build mc mc --release || fail mc
        exec "$CARGO_TARGET_DIR/release/mc" check "$1" "$2" ;;
    C24)
        # with derived streams; if the derived programs do not build, the parser alone
        c=mcd
        build mcd mcd --release || { c=mc; build mc mc --release || fail mc; }
        export MC_PLAIN=$CARGO_TARGET_DIR/release/$c
        if ! build $c ts --release --features ts --target-dir "$CARGO_TARGET_DIR/ts"; then
            # the plain build of the same tree is fine: the feature build is what broke
            grep -qE '^error' "$CARGO_TARGET_DIR/ts.log" || fail ts
            r=$MC_ROOT/replays/C24-build.txt
            { echo "property=C24"; echo "family=build"; echo "what=the crate or a program using it across threads does not compile with thread_safe"; cat "$CARGO_TARGET_DIR/ts.log"; } >"$r"
            evidence C24 "compilation with the thread_safe feature"
            grep -E -A6 '^error' "$r" | head -30
            echo "VIOLATION property=C24 replay=$r"
            exit 1
        fi
        exec "$CARGO_TARGET_DIR/ts/release/$c" check "$1" "$2" ;;
    C25)
        # the runtime without any derived program must build, or there is no answer
        build mcd rt --release --lib --no-default-features || fail rt
        if ! grid "$2"; then
            p=$(grep -oE -- '--> part[0-9]+/src/p[0-9]+\.rs' "$CARGO_TARGET_DIR/grid.log" | head -1 | sed 's/--> //')
            [ -n "$p" ] || fail grid
            r=$MC_ROOT/replays/C25-${p##*/}.txt
            { echo "property=C25"; echo "family=build"; echo "program=$p"; echo "what=a supported derive input does not compile"; grep -E -A12 '^error' "$CARGO_TARGET_DIR/grid.log" | head -60; echo "----"; cat "$GRID/$p"; } >"$r"
            evidence C25 "compilation of the generated programs"
            grep -E -A8 '^error' "$r" | head -24
            echo "VIOLATION property=C25 replay=$r"
            exit 1
        fi
        exec "$CARGO_TARGET_DIR/gridt/debug/grid" check "$1" "$2" ;;
    C27)
        exec python3 tools/misuse.py check "$2" ;;
    C[0-9][0-9])
        build mc mc --release || fail mc
        exec "$CARGO_TARGET_DIR/release/mc" check "$1" "$2" ;;
    *)
        echo "unknown property $1" >&2
        exit 2 ;;
    esac
}
case $1 in
setup)
    build mc mc --release || fail mc
    build mcd mcd --release || fail mcd
    exit 0 ;;
replay)
    id=$(sed -n 's/^property=//p' "$2" | head -1)
    if grep -q '^family=build' "$2"; then run "$id" quick; fi
    case $id in
    C05|C06|C07|C08|C13|C16|C17|C18|C19|C21) build mcd mcd --release || fail mcd; exec "$CARGO_TARGET_DIR/release/mcd" replay "$2" ;;
    C24)
        export MC_PLAIN=$CARGO_TARGET_DIR/release/mcd
        build mcd mcd --release && build mcd ts --release --features ts --target-dir "$CARGO_TARGET_DIR/ts" || fail ts
        exec "$CARGO_TARGET_DIR/ts/release/mcd" replay "$2" ;;
    C27) exec python3 tools/misuse.py replay "$2" ;;
    C25) t=$(sed -n 's/^tier=//p' "$2"); GRID=$CARGO_TARGET_DIR/grid-$t; grid "$t" || fail grid; exec "$CARGO_TARGET_DIR/gridt/debug/grid" replay "$2" ;;
    *) build mc mc --release || fail mc; exec "$CARGO_TARGET_DIR/release/mc" replay "$2" ;;
    esac ;;
*) run "$1" "${2:-quick}" ;;
esac
