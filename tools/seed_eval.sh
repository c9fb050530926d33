#!/bin/bash
# seed_eval.sh [-t] ID...: evaluate planted bugs /verif/seeded/ID in a private mount namespace (nothing outside a scratch copy is
# touched).  With -t the stable tests are run as well.  Prints: demo clean/patched exit codes, tests lost, check's verdict.
T=0; [ "$1" = -t ] && { T=1; shift; }
for ID in "$@"; do
W=$(mktemp -d /tmp/seedeval.XXXXXX)
mkdir $W/repo $W/verif $W/vp
cp -a /repo/. $W/repo/; cp -a /verif/. $W/verif/; cp -a /opt/vp/. $W/vp/; cp -a /opt/ccache $W/ccache
mkdir $W/demo; cp -a /verif/seeded/$ID/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
PROP=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
cat > $W/run.sh <<R
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/vp /opt/vp; mount --bind $W/ccache /opt/ccache
cd /repo && git checkout -q -- . && bash /opt/vp/build.sh >$W/b0.log 2>&1 || echo "$ID clean build failed"
timeout 300 bash $W/demo/demo.sh >$W/d0.log 2>&1; echo "$ID demo clean rc=\$?"
git apply /verif/seeded/$ID/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
if [ $T = 1 ]; then bash /opt/vp/test.sh $W/out.json >$W/t.log 2>&1
python3 - <<P
import json
o=json.load(open('$W/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def ids(x):
    return set(x.get("stable") or x["passed"])
def _old(x):
    return set(x.get('passed') or x.get('stable') or [k for k,v in x.items() if v=='passed'])
print('$ID tests lost:', sorted(ids(b)-ids(o)))
P
else bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo "$ID BUILD FAILED"; tail -5 $W/b1.log; }; fi
cd /repo; timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1; echo "$ID demo patched rc=\$?"
cd /verif; VERIF_SEED=1 timeout 900 ./check.py $PROP --tier quick >$W/c.log 2>&1; echo "$ID check $PROP rc=\$?"; grep -E "VIOLATION|  +[0-9]+ x|traces" $W/c.log | head -8
R
unshare -Urm bash $W/run.sh
chmod -R u+w $W; rm -rf "$W"
done
