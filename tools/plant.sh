#!/bin/bash
# tools/plant.sh ID [PROPERTY...]: try the seeded bug in copies of /repo and
# /verif, in namespaces of their own; with T=0 the stable tests are skipped.
ID=$1; shift
D=/tmp/plant.$ID
rm -rf "$D"; mkdir -p "$D/work" "$D/seed" "$D/tmp"
cp -a /repo "$D/repo"; cp -a /verif "$D/verif"; cp -a /verif/seeded/$ID/. "$D/seed"
PROPS="$*"
[ -z "$PROPS" ] && PROPS=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
cat > "$D/inner.sh" <<I
mount --bind $D/repo /repo; mount --bind $D/work /opt/vp/work; mount --bind $D/verif /verif; mount --bind $D/tmp /tmp
ip link set lo up
cd /repo; git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$ID: clean build FAILED"
timeout 300 bash /opt/vp/work/seed/demo.sh > /opt/vp/work/demo0 2>&1; echo "$ID demo clean: \$?"
git apply /opt/vp/work/seed/patch.diff || echo "$ID: patch does not apply"
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$ID: patched build FAILED"
if [ "$T" != 0 ]; then
bash /opt/vp/test.sh /opt/vp/work/out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/opt/vp/work/out.json'))
b=b.get('passed') or b.get('stable') or b if isinstance(b,dict) else b
miss=sorted(set(b)-set(o['passed']))
print('$ID tests:', 'pass' if not miss else 'FAIL %d %s'%(len(miss),miss[:3]))
P
fi
timeout 300 bash /opt/vp/work/seed/demo.sh > /opt/vp/work/demo1 2>&1; echo "$ID demo patched: \$?"
bash /opt/vp/build.sh >/dev/null 2>&1
cd /verif
for p in $PROPS; do
python3-vt -B -m vf.run \$p > /opt/vp/work/check.\$p 2>&1; echo "$ID check \$p: \$? \$(grep -c '^VIOLATION' /opt/vp/work/check.\$p) \$(tail -1 /opt/vp/work/check.\$p | cut -c1-160)"
done
I
cp -a "$D/seed" "$D/work/seed"
unshare -Urmnpf --mount-proc bash "$D/inner.sh" 2>&1 | grep -v "^$"
mkdir -p /tmp/plantlog; cp -f $D/work/demo1 /tmp/plantlog/$ID.demo 2>/dev/null; cp -f $D/work/check.* /tmp/plantlog/ 2>/dev/null; for f in $D/work/check.*; do cp -f $f /tmp/plantlog/$ID.$(basename $f); done
rm -rf "$D"
