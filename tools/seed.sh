#!/bin/bash
# tools/seed.sh ID [--nocheck]: confirms one planted bug in a scratch copy of /repo that is bind-mounted over /repo in a private
# mount namespace (builds, stable tests, demo before and after), then runs the check of its property against it.
ID=$1; NOCHECK=$2
S=/verif/seeded/$ID
W=/tmp/seed-$ID
rm -rf "$W"; cp -a /repo "$W"
cat > "$W.sh" <<X
set -e
mount --bind $W /repo
cd /repo
git config --global --add safe.directory '*' 2>/dev/null || true
cp -a $S /tmp/seeddemo-$ID; rm -f /tmp/seeddemo-$ID/*.diff /tmp/seeddemo-$ID/meta.json
bash /opt/vp/build.sh >/tmp/seed-$ID.build0 2>&1
set +e
(cd /repo; timeout 300 bash /tmp/seeddemo-$ID/demo.sh) >/tmp/seed-$ID.d0 2>&1; echo "demo unchanged: \$? (want 0)"
git apply $S/patch.diff || { echo "PATCH FAILS"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed-$ID.build1 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/seed-$ID.build1; exit 1; }
bash /opt/vp/test.sh /tmp/seed-$ID.json >/tmp/seed-$ID.t 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; r=json.load(open("/tmp/seed-$ID.json"))
miss=[t for t in b if t not in r["passed"]]
print("tests:", len(r["passed"]), "passed; stable not passing:", miss)
P
(cd /repo; timeout 300 bash /tmp/seeddemo-$ID/demo.sh) >/tmp/seed-$ID.d1 2>&1; echo "demo patched: \$? (want nonzero)"
X
unshare -Urm bash "$W.sh"
tail -3 /tmp/seed-$ID.d1
if [ -z "$NOCHECK" ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /verif; cp -a evidence "$W.ev"
  VERIF_REPO=$W VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3-vt -m pbt.main $P 2>&1 | cut -c1-600 | tail -8
  cp -a "$W.ev"/. evidence/
fi
rm -rf "$W" "$W.sh" "$W.ev" /tmp/seed-$ID.* /tmp/seeddemo-$ID
