#!/bin/bash
# check.sh ID           explore property ID on the code in /repo's working tree
# check.sh replay FILE  judge one recorded case again
# check.sh setup        build everything
# VERIF_TIER=thorough explores deeper bounds.
set -u
V=/verif
cd "$V" || exit 3
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR
build() { # manifest target-dir args...
    local m=$1 t=$2; shift 2
    local log; log=$(mktemp)
    if ! cargo build --release --offline --quiet --manifest-path "$m" --target-dir "$t" "$@" >"$log" 2>&1; then
        cat "$log" >&2; rm -f "$log"; return 1
    fi
    rm -f "$log"
}
mc() { build "$V/mc/Cargo.toml" "$V/target/mc" || { echo "mc does not build" >&2; exit 3; }; }
cli() { build /repo/Cargo.toml "$V/target/repo" --locked -p "$1" || { echo "$1 does not build" >&2; exit 3; }; }
LS=$V/target/lsmc/release/lsmc
ls_() {
    cli ginko_ls
    python3 "$V/lsmc/gen.py" && build "$V/target/lsmc-crate/Cargo.toml" "$V/target/lsmc" && return
    echo "the server does not build in process; using the wire" >&2
    LS=$V/target/lswire/release/lsmc
    build "$V/lsmc/Cargo.toml" "$V/target/lswire" || { echo "lsmc does not build" >&2; exit 3; }
}
ID=${1:?}
case "$ID" in
setup)
    mc; cli ginko
    ls_
    build "$V/lsmc/Cargo.toml" "$V/target/lswire"
    exit 0 ;;
replay)
    P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 3
    ARGS=(replay "$2") ;;
*)
    P=$ID; ARGS=(check "$ID") ;;
esac
case "$P" in
C17) mc; cli ginko; exec "$V/target/mc/release/mc" "${ARGS[@]}" ;;
C19|C20|C21|C22) ls_; exec "$LS" "${ARGS[@]}" ;;
*) mc; exec "$V/target/mc/release/mc" "${ARGS[@]}" ;;
esac
