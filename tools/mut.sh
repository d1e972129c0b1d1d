#!/bin/bash
# mut.sh <prop> <file> <python-expr old> <new> [cfg...]   applies old->new once to a copy of /repo and runs the check there
prop=$1; f=$2; old=$3; new=$4; shift 4
M=/tmp/mutrepo
[ -d $M ] || cp -a /repo $M
git -C $M checkout -q -- . 
python3 - "$M/$f" "$old" "$new" <<'P' || exit 9
import sys
p,o,n=sys.argv[1:]
s=open(p).read()
if o not in s: print("PATTERN NOT FOUND"); sys.exit(1)
open(p,'w').write(s.replace(o,n,1))
P
args=(); for c in "$@"; do args+=(--cfg $c); done
cd /verif; PA_REPO=$M ./check $prop "${args[@]}" 2>&1 | head -${LINES_MAX:-4} | cut -c1-420
git -C $M checkout -q -- .
