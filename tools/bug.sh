#!/bin/bash
# bug.sh ID: takes the change made in the scratch copy /tmp/wt/repo (made by 'bug.sh --new'),
# confirms that it builds, passes the stable tests, and that seeded/ID/demo.sh tells it apart.
set -u
W=/tmp/wt
if [ "$1" = --new ]; then
    rm -rf /tmp/wt
    mkdir -p $W && cp -a /repo $W/repo
    exit 0
fi
D=/verif/seeded/$1
mkdir -p $D
git -C $W/repo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo apply --check $D/patch.diff || exit 1
# the build and the tests work on /repo: apply, build, test, demo, undo
(cd /repo && bash $D/demo.sh >/tmp/wt/demo0.log 2>&1); r0=$?
git -C /repo apply $D/patch.diff
bash /opt/vp/build.sh > /tmp/wt/build.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/wt/out.json > /tmp/wt/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/wt/out.json'))
def names(x,k): return set(x.get(k,[])) if isinstance(x,dict) else set()
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
P
(cd /repo && bash $D/demo.sh >/tmp/wt/demo1.log 2>&1); r1=$?
git -C /repo checkout -q -- .
bash /opt/vp/build.sh > /dev/null 2>&1
echo "build=$b demo clean=$r0 demo bug=$r1"
tail -3 /tmp/wt/demo1.log
