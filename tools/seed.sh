#!/bin/bash
# seed.sh ID [nocheck]: confirm a planted bug in a scratch copy, then run its check on /repo with it applied
id=$1; S=/verif/seeded/$id; W=/tmp/seedcopy.$$
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cp -a /repo $W
cd $W
D=/tmp/seeddemo.$$; cp -r $S $D; rm -f $D/*.diff $D/meta.json
( bash $D/demo.sh ) >/tmp/seed.$$.clean 2>&1; c=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; rm -rf $W $D; exit 1; }
( bash $D/demo.sh ) >/tmp/seed.$$.bug 2>&1; b=$?
cd /; rm -rf $W $D
echo "$id ($prop): demo clean=$c patched=$b"
[ "$2" = nocheck ] && exit 0
git -C /repo apply $S/patch.diff
bash /tmp/runtests.sh | tail -1
[ "$2" = tests ] || python3 /verif/vp.py check $prop 2>&1 | grep -E "^VIOLATION|^property|INCONCL|WARN" | head -5
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
git -C /repo status --short
