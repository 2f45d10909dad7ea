#!/bin/bash
# tools/soak.sh SIM "P16 P17" "2 3 4" SCALE : more seeds than the checks use
. "$(dirname "$0")/../env.sh"
for p in $2; do for s in $3; do VERIF_SEED=$s SIM_SCALE=${4:-5} timeout 1200 /verif/target/debug/$1 check $p 2>&1 | grep -v " vfs: " | cut -c1-500 | tail -${5:-4}; done; done
