#!/bin/bash
# neutraltest.sh [-b] "NAMES" PROPS: private copy over /repo with the rewrites applied together; build, stable tests, checks (must all be quiet). -b: only build and test
only=; [ "$1" = -b ] && { only=1; shift; }
names=$1; shift
w=$(mktemp -d /tmp/neutw.XXXX); cp -a /repo $w/repo
cat > $w/run.sh <<'R'
w=$1; names=$2; only=$3; shift 3
mount --bind $w/repo /repo; cd /repo; git checkout -q -- .
python3 /verif/tools/neutral.py /repo $names || exit 3
(cd src && bash gen.sh >/dev/null 2>&1)
bash /opt/vp/build.sh >$w/build.log 2>&1 || { tail -5 $w/build.log; exit 3; }
bash /opt/vp/test.sh $w/t.json >$w/test.log 2>&1
python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$w/t.json')); print('$names: missing', [x for x in b['stable'] if x not in t['passed']])"
[ "$only" ] && exit 0
cd /verif; for p in "$@"; do timeout 900 python3-vt check.py $p quick > $w/chk.out 2>&1; echo "$names $p: $? $(grep -c VIOLATION $w/chk.out) $(tail -1 $w/chk.out | cut -c1-110)"; grep -v "^C..\|^VIOL" $w/chk.out | head -6 | cut -c1-220; done
R
unshare -m bash $w/run.sh $w "$names" "$only" "$@" 2>&1
rm -rf "$w"
