#!/bin/bash
# muttest.sh [-b] [-c "props"] ID...: each fault in a private copy over /repo: (-b: also build and run the stable tests), then the check of its property (exit 1 expected)
b=; props=; while getopts bc: o; do case $o in b) b=1;; c) props=$OPTARG;; esac; done; shift $((OPTIND-1))
w=$(mktemp -d /tmp/mutw.XXXX); cp -a /repo $w/repo
cat > $w/run.sh <<'R'
w=$1; b=$2; props=$3; shift 3
mount --bind $w/repo /repo; cd /repo
for id in "$@"; do
  git checkout -q -- .; python3 /verif/tools/mutants.py /repo $id || continue
  (cd src && bash gen.sh >/dev/null 2>&1)
  t=
  if [ "$b" ]; then bash /opt/vp/build.sh >$w/build.log 2>&1 || { echo "$id: does not build"; continue; }
    bash /opt/vp/test.sh $w/t.json >$w/test.log 2>&1
    t="tests miss $(python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$w/t.json')); print([x for x in b['stable'] if x not in t['passed']])") "; fi
  cd /verif; for p in ${props:-${id%%-*}}; do timeout 900 python3-vt check.py $p quick > $w/chk.out 2>&1; r=$?
  echo "$id $p: $t rc $r $(grep -A1 VIOLATION $w/chk.out | sed -n 2p | cut -c1-150) | $(tail -1 $w/chk.out | cut -c1-90)"; done; cd /repo
done
R
unshare -m bash $w/run.sh $w "$b" "$props" "$@" 2>&1
rm -rf "$w"
