#!/bin/bash
# seed.sh ID [PROPERTY...]: confirm a planted change in a private copy of /repo (bind-mounted), then run the checks on it.
# NOTEST=1 skips the test suite.
id=$1; shift
D=/tmp/seed.$id; rm -rf "$D"; mkdir -p "$D"
cp -a /repo "$D/repo"; mkdir "$D/verif"; (cd /verif && tar cf - --exclude=./build --exclude=./.git --exclude=./seeded .) | tar xf - -C "$D/verif"
cp -a /verif/seeded/$id "$D/s"; cp "$D/s/patch.diff" "$D/p.diff"; rm -f "$D"/s/*.diff "$D"/s/meta.json
cat > "$D/run.sh" <<'X'
D=$1; shift
mount --bind $D/repo /repo; mount --bind $D/verif /verif; cd /repo; git checkout -q -- .
bash /opt/vp/build.sh >$D/b0.log 2>&1
timeout 300 bash $D/s/demo.sh >$D/d0.log 2>&1; echo "demo unchanged: $? $(tail -1 $D/d0.log)"
git apply $D/p.diff || { echo "patch does not apply"; exit 1; }
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $D/o.json >$D/t.log 2>&1
python3 - $D/o.json <<'P'
import json,sys
d=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[x for x in b if x not in d['passed']]
print('tests:', len(b)-len(m), 'of', len(b), m[:6])
P
else bash /opt/vp/build.sh >$D/b1.log 2>&1; fi
timeout 300 bash $D/s/demo.sh >$D/d1.log 2>&1; echo "demo patched: $? $(tail -1 $D/d1.log)"
cd /verif
for p in "$@"; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt engine/check.py $p quick > $D/c.$p.log 2>&1; echo "check $p: $?"; grep "^VIOLATION\|obligations," $D/c.$p.log | head -3; grep -A1 "^VIOLATION" $D/c.$p.log | sed -n 2p | cut -c1-200; done
X
unshare -Urm bash "$D/run.sh" "$D" "$@"
[ -n "$KEEP" ] || rm -rf "$D"
