#!/bin/bash
# tools/plant.sh ID [CHECK...]: tries the planted bug seeded/ID on a scratch copy of /repo, bound over /repo in a
# private mount namespace: demo passes, patch applies, build, stable tests, demo fails; then the named checks
# (default: its property's).  NOTEST=1 skips the stable tests.
set -u
ID=$1; shift
S=$(cd "$(dirname "$0")/../seeded/$ID" && pwd)
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CHECKS=${*:-$PROP}
W=/tmp/plant.$ID; rm -rf "/tmp/plant.$ID"; mkdir -p "$W/tmp"; cp -a /repo "$W/repo"
cp -a "$(cd "$(dirname "$0")/.." && pwd)" "$W/verif"
mkdir "$W/demo"; cp "$S"/* "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
cp -a "$W/demo" "$W/tmp/demo"
cp "$S/patch.diff" "$W/tmp/patch.diff"
unshare -m bash -s "$W" "$ID" "$CHECKS" <<'EOF'
W=$1; ID=$2; CHECKS=$3
mount --bind "$W/repo" /repo; mount --bind "$W/verif" /verif; mount --bind "$W/tmp" /tmp
cd /repo
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "$ID: base build fails"; exit; }
timeout 300 bash /tmp/demo/demo.sh >/tmp/d0.log 2>&1 || { echo "$ID: DEMO FAILS UNPATCHED"; tail -5 /tmp/d0.log; }
git apply /tmp/patch.diff || { echo "$ID: DOES NOT APPLY"; exit; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "$ID: BUILD FAILS"; tail -5 /tmp/b.log; exit; }
timeout 300 bash /tmp/demo/demo.sh >/tmp/d1.log 2>&1 && echo "$ID: DEMO PASSES PATCHED"
if [ -z "${NOTEST:-}" ]; then
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 - "$ID" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/out.json'))['passed'])
print(sys.argv[1]+": tests", "ok" if b<=o else "FAIL %s"%sorted(b-o)[:4])
P
fi
cd /verif
for c in $CHECKS; do VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 ./check $c >/tmp/c.log 2>&1; rc=$?; echo "$ID: check $c rc=$rc $(grep -m1 VIOLATION /tmp/c.log | cut -c1-150)"; [ $rc = 1 ] || tail -3 /tmp/c.log; done
EOF
rm -rf "/tmp/plant.$ID"
