#!/bin/bash
# try.sh id check...   : apply, run checks, undo
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
cd /verif
for c in "$@"; do
  python3 -B -m pa.run $c --tier quick > /tmp/seed/out.$id.$c 2>&1; echo "$id $c rc=$?"; grep -a VIOLATION -A1 /tmp/seed/out.$id.$c | cut -c1-300| head -4
done
