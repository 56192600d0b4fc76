#!/bin/bash
# check.sh PROPERTY [--thorough | --replay FILE]: builds the checker against /repo's working tree
# and runs it. Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it
# does not. Anything else is an error of the check.
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
. "$VERIF_DIR/env.sh"
prop=$1
shift
if [ "$1" = --thorough ]; then
    export VERIF_TIER=thorough
    shift
fi
case $prop in
    C01 | C02 | C03 | C06 | C07 | C08) crate=core bin=mcvalue ;;
    C04 | C05 | C09 | C10 | C11 | C20 | C22 | C23 | C24) crate=typed bin=mcstd ;;
    C17 | C18 | C19 | C25 | C27) crate=serde bin=mcserde ;;
    C12 | C13) crate=structs bin=mcstructs ;;
    C14 | C15) crate=enums bin=mcenums ;;
    C16 | C21) crate=both bin=mcboth ;;
    C28) crate=own bin=mcown ;;
    C26) exec python3 "$VERIF_DIR/mc/decl/check.py" "$@" ;;
    *) echo "unknown property $prop" >&2; exit 2 ;;
esac
build() {
    (cd "$VERIF_DIR/mc/$crate" && cargo build --offline --quiet --bin "$bin") 2>"$VERIF_RUN_DIR/build-$prop.log"
}
if ! build; then
    log=$VERIF_RUN_DIR/build-$prop.log
    cat "$log" >&2
    # The derived types of these checks only declare what the documentation allows. Code generated
    # for them that does not compile, while everything else does, breaks what derivation promises.
    case $crate in
        structs | enums | both | own)
            if (cd "$VERIF_DIR/mc/core" && cargo build --offline --quiet --lib) 2>/dev/null \
                && grep -q '^ *--> .*src/\(types\|sample\)\.rs' "$log"; then
                mkdir -p "$VERIF_DIR/replays"
                replay=$VERIF_DIR/replays/$prop-compile.txt
                { echo compile; cat "$log"; } >"$replay"
                echo "VIOLATION property=$prop replay=$replay"
                echo "  the derived code of a declared type does not compile"
                exit 1
            fi
            ;;
    esac
    echo "check of $prop: build failed" >&2
    exit 2
fi
if [ "$1" = --replay ] && [ "$(head -n 1 "$2" 2>/dev/null)" = compile ]; then
    echo "property $prop: the derived types compile"
    exit 0
fi
exec "$CARGO_TARGET_DIR/debug/$bin" "$prop" "$@"
