#!/bin/bash
# tools/mut.sh FILE 'python-replace-old' 'new' PROPS... : try a one-line change of /repo against checks, then undo it
F=$1; A=$2; B=$3; shift 3
cd /repo && python3 - "$F" "$A" "$B" <<'P' || exit 1
import sys
p,a,b=sys.argv[1:]; s=open(p).read(); assert a in s,'not found'; open(p,'w').write(s.replace(a,b,1))
P
cd /verif; for p in "$@"; do bash run.sh $p 2>&1 | grep -v "^ *vfs:\|^ *fs:" | cut -c1-300 | tail -${TAILN:-8}; done
git -C /repo checkout -- "$F"
