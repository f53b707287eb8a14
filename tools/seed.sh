#!/bin/bash
# seed.sh <dir>: confirm a planted bug on a scratch copy of /repo (bind-mounted over /repo in a namespace of its own):
# applies, builds, stable tests pass, demo 0 without / nonzero with the patch.
D=$(readlink -f "$1"); W=$(mktemp -d /tmp/seedXXXXXX); cp -a ${R:-/repo} $W/repo; cp -a "$D" $W/d
export D W
unshare -Urm bash -c '
mount --bind $W/repo /repo; cd /repo; git config --global --add safe.directory /repo 2>/dev/null; git checkout -q -- .
bash /opt/vp/build.sh >$W/b.log 2>&1 || echo BUILD-FAIL-BASE
timeout 300 bash $W/d/demo.sh >$W/d0.log 2>&1; a=$?
git apply $W/d/patch.diff || echo APPLY-FAIL
bash /opt/vp/build.sh >$W/b.log 2>&1 || { echo BUILD-FAIL; tail -5 $W/b.log; }
bash /opt/vp/test.sh $W/o.json >$W/t.log 2>&1
python3 - $W <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json"));o=json.load(open(sys.argv[1]+"/o.json"))
m=sorted(set(b["stable"])-set(o["passed"]))
if m: print("TESTS-FAIL",m[:8])
P
timeout 300 bash $W/d/demo.sh >$W/d1.log 2>&1; b=$?
r=BAD; [ $a = 0 ] && [ $b != 0 ] && r=ok
echo "$(basename $D): demo clean=$a patched=$b $r"; [ $a = 0 ] || tail -5 $W/d0.log; [ $b = 0 ] && tail -3 $W/d1.log
true'
rm -rf "$W"
