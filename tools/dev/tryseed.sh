#!/bin/bash
# tryseed.sh ID : demo on clean and patched copy; check on patched
set -u
id=$1; P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
W=/tmp/ts.$id; [ -d $W ] && rm -rf /tmp/ts.$id
cp -a /repo $W
cd $W; bash /verif/seeded/$id/demo.sh >/tmp/ts.$id.clean 2>&1; c=$?
git apply /verif/seeded/$id/patch.diff || echo APPLYFAIL
make -j8 >/tmp/ts.$id.mk 2>&1 || echo BUILDFAIL
bash /verif/seeded/$id/demo.sh >/tmp/ts.$id.pat 2>&1; d=$?
cd /verif; python3-vt check.py --property $P --repo $W > /tmp/ts.$id.chk 2>&1; k=$?
echo "$id $P clean=$c patched=$d check=$k $(grep -h VIOLATION /tmp/ts.$id.chk | head -2)"
rm -rf /tmp/ts.$id
