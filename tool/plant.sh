#!/bin/bash
# Development aid (not used by any check): confirms a planted bug in a scratch copy of /repo.
#   tool/plant.sh ID [nocheck]   copy in /tmp/w (made when missing), seen as /repo in a namespace of its own
# Prints: CLEAN-DEMO rc, BUILD rc, TESTS lost, DEMO rc, CHECK rc.
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; S=$V/seeded/$ID
[ -n "$LFV_NS" ] || { exec 9>/tmp/plant.lock; flock 9; }
[ -d /tmp/w ] || cp -a /repo /tmp/w
mkdir -p /tmp/ccache /tmp/wb
if [ -z "$LFV_NS" ]; then
  LFV_NS=1 exec unshare -Urm bash "$0" "$@"
fi
mount --bind /tmp/w /repo; mount --bind /tmp/ccache /opt/vp/ccache
cd /repo; git checkout -q -- .
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d /tmp/demoXXXX); cp -r $S/. $D/; rm -f $D/*.diff $D/meta.json
bash /opt/vp/build.sh >/tmp/wb/build0.log 2>&1 || echo "base build failed"
bash $D/demo.sh >/tmp/wb/demo0.log 2>&1; echo "CLEAN-DEMO $?"
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/wb/build1.log 2>&1; echo "BUILD $?"
bash $D/demo.sh >/tmp/wb/demo1.log 2>&1; echo "DEMO $?"
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/wb/t.json >/tmp/wb/test.log 2>&1
python3 - <<'X'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/wb/t.json'))['passed'])
print('TESTS lost', sorted(b-p)[:5])
X
fi
if [ "$2" != nocheck ]; then
  cd $V; LFV_BUILD=/tmp/wb/build timeout 900 python3 tool/lfv.py check $P >/tmp/wb/check.log 2>&1; echo "CHECK $P $?"
  grep -a VIOLATION /tmp/wb/check.log | head -3
fi
cd /repo; git checkout -q -- .
rm -rf "$D"
