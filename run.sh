#!/bin/bash
# usage: run.sh PROPERTY   -- build the simulator from /repo's working tree and run one check
cd "$(dirname "$0")" || exit 2
. ./env.sh
P="$1"
case "$P" in
    P24|P25|P26|P28|P29|P30|P31|P32|P33|P34|P35|P36|P37) SIM=bsim ;;
    *) SIM=lsim ;;
esac
bash ./build.sh $SIM || { echo "harness error: $SIM does not build"; exit 2; }
exec "$CARGO_TARGET_DIR/debug/$SIM" check "$P"
