#!/bin/bash
# seedtest.sh ID: runs the stable tests of /repo with one planted change, in a scratch copy
id=$1; W=$(mktemp -d /tmp/st_XXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo $W/repo; cd $W/repo; git apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; exit 1; }
sed -e "s#cd /repo#cd $W/repo#" -e 's/-n 8/-n 2/' /opt/vp/test.sh > $W/t.sh
PYTHONPATH=$W/repo timeout 3000 bash $W/t.sh $W/out.json > $W/log 2>&1
python3 - $id $W/out.json <<'X'
import json,sys
id,o=sys.argv[1:]
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(o))
st=b.get('stable') or b.get('passed') or b.get('tests')
st=set(st)
ps=set(r.get('passed') or [])
miss=sorted(st-ps)
print(id, 'OK' if not miss else 'BROKEN', len(miss), miss[:5])
X
