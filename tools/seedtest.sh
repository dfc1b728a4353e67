#!/bin/bash
# seedtest.sh [-t] [-c "props"] ID... : in a private copy mounted over /repo: demo on clean tree, then build, tests, demo and check with the patch
# -t: no tests/demo, checks only
tests=1; props=
while getopts tc: o; do case $o in t) tests=;; c) props=$OPTARG;; esac; done; shift $((OPTIND-1))
w=$(mktemp -d /tmp/seedw.XXXX); cp -a /repo $w/repo
cat > $w/run.sh <<'R'
mount --bind $1/repo /repo; w=$1; tests=$2; props=$3; shift 3
cd /repo; git checkout -q -- .
for id in "$@"; do
V=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$V/meta.json'))['property'])")
cd /repo; git checkout -q -- .
if [ -n "$tests" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $V/demo.sh >$w/demo.clean 2>&1; echo "$id clean demo: $?"; fi
git apply $V/patch.diff || continue
if [ -n "$tests" ]; then
  bash /opt/vp/test.sh $w/t.json >$w/test.log 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$w/t.json'))
miss=[x for x in b['stable'] if x not in t['passed']]
print('$id tests: missing', miss)
P
  timeout 300 bash $V/demo.sh >$w/demo.bug 2>&1; echo "$id bug demo: $?" $(tail -1 $w/demo.bug)
fi
cd /verif; [ "$props" = none ] || for p in ${props:-$prop}; do timeout 900 python3-vt check.py $p quick > $w/chk.out 2>&1; echo "$id check $p: $? $(grep -c VIOLATION $w/chk.out)"; grep -B1 VIOLATION $w/chk.out | head -2 | cut -c1-200; done
done
R
unshare -m bash $w/run.sh $w "$tests" "$props" "$@" 2>&1 || unshare -Urm bash $w/run.sh $w "$tests" "$props" "$@"
rm -rf "$w"
