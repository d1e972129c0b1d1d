#!/bin/bash
# try2.sh id check... : like try.sh, but on a scratch copy
id=$1; shift
w=/tmp/seed/tr-$id
rm -rf "/tmp/seed/tr-$id"; git clone -q /repo $w && git -C $w apply /verif/seeded/$id/patch.diff || exit 1
cd /verif
for c in "$@"; do
  PA_REPO=$w python3 -B -m pa.run $c --tier quick > /tmp/seed/out.$id.$c 2>&1; echo "$id $c rc=$?"; grep -a VIOLATION -A1 /tmp/seed/out.$id.$c | cut -c1-250| head -2
done
rm -rf "/tmp/seed/tr-$id"
