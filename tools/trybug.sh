#!/bin/bash
# trybug.sh ID [PROP..]: validates seeded/ID (patch applies, builds, stable tests pass, demo fails with it and
# passes without) and shows what the checks named (default: the property of meta.json) say about it.
ID=$1; shift
D=/verif/seeded/$ID
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOCLEAN" ]; then
  s=$SECONDS; bash $D/demo.sh >${TD:-/tmp}/demo.out 2>&1; r=$?; echo "demo clean: $r ($((SECONDS-s)) s)"; [ $r = 0 ] || tail -5 ${TD:-/tmp}/demo.out
fi
git apply $D/patch.diff || exit 9
if [ -z "$NOTEST" ]; then
  bash /opt/vp/build.sh >${TD:-/tmp}/b.out 2>&1 || { echo BUILD FAILED; tail -30 ${TD:-/tmp}/b.out; exit 1; }
  bash /opt/vp/test.sh ${TD:-/tmp}/t.json >${TD:-/tmp}/tt.out 2>&1
  python3 - <<'P'
import json
t=json.load(open(__import__('os').environ.get('TD','/tmp')+'/t.json')); base=json.load(open('/opt/vp/BASELINE.json'))
names=base['stable']
miss=[n for n in names if n not in set(t['passed'])]
print('tests passed',len(t['passed']),'of',len(names),'MISSING' if miss else '',miss[:5])
P
fi
if [ -z "$NODEMO" ]; then
  s=$SECONDS; bash $D/demo.sh >${TD:-/tmp}/demo.out 2>&1; r=$?; echo "demo patched: $r ($((SECONDS-s)) s)"; tail -3 ${TD:-/tmp}/demo.out
fi
for p in $P; do
  s=$SECONDS; /verif/run.sh $p >${TD:-/tmp}/c.out 2>&1; echo "check $p: $? ($((SECONDS-s)) s)"; grep -m3 VIOLATION ${TD:-/tmp}/c.out; tail -4 ${TD:-/tmp}/c.out
done
