#!/bin/bash
# catch.sh ID [PROP...]: run the check(s) on a seeded change, in a scratch copy mounted over /repo (development helper)
ID=$1; shift; P=$*
[ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
W=$(mktemp -d /tmp/catch.XXXX); cp -a /repo $W/repo
unshare -m bash -c "mount --make-rprivate /; mount --bind $W/repo /repo; cd /repo && git apply /verif/seeded/$ID/patch.diff; mkdir $W/ev; mount --bind $W/ev /verif/evidence; cd /verif; for p in $P; do timeout 900 python3 run.py \$p 2>&1 | grep -v '^      ' | cut -c1-260 | tail -n 4; done" | sed "s/^/[$ID] /"
rm -rf $W
