#!/bin/bash
# mkseed.sh ID: turns the edits made in the scratch copy /tmp/sc (cp -a of /repo)
# into seeded/ID/patch.diff, after checking that it builds, passes the stable
# tests, and that demo.sh tells the two trees apart. seeded/ID/{demo.sh,...,meta.json} exist.
set -e
D=/verif/seeded/$1
cd /tmp/sc
git diff > $D/patch.diff
test -s $D/patch.diff || { echo "no change"; exit 1; }
git checkout -q -- .
cd /repo; test -z "$(git status --porcelain)"
# lines removed by the patch must be lines of the original repository
base=$(git rev-list --max-parents=0 HEAD)
git diff-tree -r --name-only HEAD >/dev/null
python3 - "$D/patch.diff" $base <<'P'
import re,subprocess,sys
f=None;ok=False;own=[]
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip(); bl=subprocess.run(['git','blame','-s','-l','HEAD','--',f],capture_output=True,text=True).stdout.split('\n')
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m[1]); continue
    if l.startswith('-') and not l.startswith('---'):
        (own.append(l) if not bl[n-1].lstrip('^').startswith(sys.argv[2][:30]) else None); ok|=bl[n-1].lstrip('^').startswith(sys.argv[2][:30]); n+=1
    elif l.startswith(' '): n+=1
print("original lines changed:",ok,"own lines:",own)
P
echo "-- demo on the unchanged tree"; bash $D/demo.sh >/tmp/seed.ok.log 2>&1 && echo pass || { echo "FAILS on unchanged tree"; tail -5 /tmp/seed.ok.log; exit 1; }
git apply $D/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seed.b.log 2>&1 || { echo "build fails"; tail -3 /tmp/seed.b.log; exit 1; }
bash /opt/vp/test.sh /tmp/seed.o.json >/tmp/seed.t.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/seed.o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[t for t in b['stable'] if t not in set(o['passed'])]
print("stable tests broken:",m)
P
bash $D/demo.sh >/tmp/seed.bad.log 2>&1 && echo "demo PASSES with the patch" || { echo "demo fails with the patch (good)"; tail -3 /tmp/seed.bad.log; }
shift
for c in "$@"; do rc=0; /verif/run.sh $c quick >/tmp/seed.c.log 2>&1 || rc=$?; echo "check $c rc=$rc $(grep -c ^VIOLATION /tmp/seed.c.log || true) $(grep ^VIOLATION /tmp/seed.c.log | head -1 | cut -c1-200)"; done
