#!/bin/bash
# usage: mkseed.sh ID [notest]   /verif/seeded/ID/{patch.diff,demo.sh,...}: confirm it in a scratch copy mounted over /repo
# (own mount and network namespace), leaving the real /repo untouched. Result in /tmp/seeds/ID.txt
ID=$1; S=/verif/seeded/$ID; W=/tmp/seeds/w.$ID; OUT=/tmp/seeds/$ID.txt
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"
: > "$OUT"
unshare -m -n bash -c '
ID='$ID'; S='$S'; W='$W'; OUT='$OUT'; NT='$2'
mount --make-rprivate /; mount --bind $W/repo /repo; ip link set lo up
mkdir -p $W/d; cp -r $S/. $W/d; rm -f $W/d/*.diff $W/d/meta.json
cd /repo
bash /opt/vp/build.sh >$W/b0 2>&1 || echo "BUILD0 FAIL" >>$OUT
timeout 300 bash $W/d/demo.sh >$W/demo0 2>&1; echo "demo unchanged rc=$?" >>$OUT; tail -n 9 $W/demo0 >>$OUT
git apply $S/patch.diff || { echo "APPLY FAIL" >>$OUT; exit; }
bash /opt/vp/build.sh >$W/b1 2>&1 || { echo "BUILD FAIL" >>$OUT; tail -5 $W/b1 >>$OUT; exit; }
grep -E "warning:" $W/b1 | head -3 >>$OUT
timeout 300 bash $W/d/demo.sh >$W/demo1 2>&1; echo "demo patched rc=$?" >>$OUT; tail -n 9 $W/demo1 >>$OUT
if [ "$NT" != notest ]; then
bash /opt/vp/test.sh $W/t.json >$W/tlog 2>&1
python3 - >>$OUT <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$W/t.json"))
base=set(b if isinstance(b,list) else b["stable"])
miss=base-set(t["passed"])
print("tests:", "ALL PASS" if not miss else "MISSING %d %s"%(len(miss), sorted(miss)[:3]))
PY
fi
'
rm -rf "$W"
cat "$OUT"
