#!/bin/bash
# usage: build.sh lsim|bsim...   -- offline build of the simulators against /repo
cd "$(dirname "$0")" || exit 2
. ./env.sh
# automod::dir! lists directories at compile time; cargo does not notice added or removed files
touch_automod() {
    local list="$CARGO_TARGET_DIR/.rs-files.$1" now
    now=$(cd /repo && find libs bin arma -name target -prune -o -name '*.rs' -print | LC_ALL=C sort)
    if [ -f "$list" ] && [ "$now" != "$(cat "$list")" ]; then
        for p in hemtt hemtt-common hemtt-config hemtt-preprocessor hemtt-sqf hemtt-stringtable hemtt-workspace; do
            (cd "sim/$1" && cargo clean --offline -p "$p" 2>/dev/null)
        done
    fi
    mkdir -p "$CARGO_TARGET_DIR" && printf '%s\n' "$now" > "$list"
}
for s in "$@"; do
    touch_automod "$s"
    (cd "sim/$s" && cargo build --offline --locked -q 2>"$CARGO_TARGET_DIR/$s.build.log") || { tail -40 "$CARGO_TARGET_DIR/$s.build.log"; exit 1; }
done
