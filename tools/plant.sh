#!/bin/bash
# plant.sh ID [check ids...]: confirm seeded/ID in a scratch copy of /repo and run checks against it.
# (development aid; nothing registered in MANIFEST.json uses it)
ID=$1; shift
S=/verif/seeded/$ID; R=/tmp/pl/repo; VP=/tmp/pl/vp
mkdir -p /tmp/pl
[ -d $VP ] || { cp -a /opt/vp $VP; sed -i "s#/opt/vp#$VP#g; s#/repo#$R#g" $VP/*.sh $VP/harness/* $VP/results.py; }
rsync -a --delete --exclude _build --exclude .git /repo/ $R/ 2>/dev/null || { find $R -mindepth 1 -maxdepth 1 ! -name _build -exec rm -rf {} +; mkdir -p $R; (cd /repo && tar cf - --exclude=_build --exclude=.git .) | tar xf - -C $R; }
(cd $R && [ -d .git ] || git init -q .)
cd $R && git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$SKIPTEST" ]; then
bash $VP/test.sh /tmp/pl/o.json >/tmp/pl/test.log 2>&1 || { tail -20 /tmp/pl/test.log; }
python3 - <<'P'
import json
o=set(json.load(open('/tmp/pl/o.json'))['passed']);b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print("stable tests failing:",sorted(b-o)[:5],len(b-o))
P
(cd /repo && bash $S/demo.sh >/tmp/pl/d0.log 2>&1); echo "demo clean: $?"
(cd $R && bash $S/demo.sh >/tmp/pl/d1.log 2>&1); echo "demo patched: $?"; tail -2 /tmp/pl/d1.log
fi
for c in "$@"; do VERIF_REPO=$R MC_CAP=600 python3 /verif/check.py $c > /tmp/pl/c.log 2>&1; echo "check $c: $?"; grep -v ^VIOL /tmp/pl/c.log | head -${LINES_:-4} | cut -c1-250; done
