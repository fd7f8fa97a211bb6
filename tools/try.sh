#!/bin/bash
# try.sh ID : the demonstration on the clean tree, then patched: tests and demonstration
cd /repo; id=$1; w=$(mktemp -d /tmp/tryXXXXXX)
[ -n "$(git status --porcelain)" ] && { echo dirty; exit 1; }
bash /verif/seeded/$id/demo.sh >$w/clean 2>&1; echo "$id clean rc=$?"; tail -2 $w/clean | cut -c1-200
git apply /verif/seeded/$id/patch.diff || exit 1
bash /opt/vp/test.sh $w/r.json >$w/test 2>&1
python3 - $w <<'P'
import json,sys
r=json.load(open(sys.argv[1]+'/r.json'))
print('passed',len(r['passed']),'failed',r['failed'][:6])
P
bash /verif/seeded/$id/demo.sh >$w/bug 2>&1; echo "$id patched rc=$?"; tail -3 $w/bug | cut -c1-200
git checkout -q -- .
rm -rf "$w"
