#!/bin/bash
# plant.sh ID [PROP...]: confirms a planted bug (seeded/ID) in a scratch copy shown as /repo in a private mount
# namespace, then runs the named checks (default: its own property) against it.
set -u
ID=$1; shift
V=$(realpath "$(dirname "$0")/..")
W=/tmp/wt.$ID
if [ "${IN_NS:-}" != 1 ]; then
  rm -rf "/tmp/wt.$ID"; cp -a /repo "$W" || exit 2
  IN_NS=1 unshare -rm bash "$0" "$ID" "$@"; rc=$?
  rm -rf "/tmp/wt.$ID"
  exit $rc
fi
mount --bind "$W" /repo || exit 2
S=$(mktemp -d /tmp/demo.XXXX); cp -r "$V/seeded/$ID/." "$S"; rm -f "$S"/*.diff "$S"/meta.json
cd /repo
git checkout -q -- . ; bash /opt/vp/build.sh >/tmp/plant.$ID.log 2>&1 || { echo "$ID: clean build failed"; exit 2; }
(bash "$S/demo.sh") >/tmp/plant.$ID.demo0 2>&1; r0=$?
git apply "$V/seeded/$ID/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/plant.$ID.log 2>&1 || { echo "$ID: patched build failed"; tail -5 /tmp/plant.$ID.log; exit 2; }
bash /opt/vp/test.sh /tmp/plant.$ID.json >/dev/null 2>&1
t=$(python3 - "$ID" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/plant.%s.json'%sys.argv[1]))
base=b.get('passed',b.get('tests',b.get('stable',[])))
m=[x for x in base if x not in t.get('passed',[])]
print('tests ok' if not m else 'TESTS FAIL %d %s'%(len(m),m[:4]))
P
)
(bash "$S/demo.sh") >/tmp/plant.$ID.demo1 2>&1; r1=$?
rm -rf "$S"
[ $r0 = 0 ] && [ $r1 != 0 ] && d="demo ok" || d="DEMO BAD (clean $r0 patched $r1)"
echo "$ID: $t; $d"
[ "${NOCHECK:-}" = 1 ] && exit 0
P=${@:-$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")}
for p in $P; do
  mkdir -p /tmp/vp.$ID; cp -r $V/check.py $V/sim $V/known-findings.txt /tmp/vp.$ID/ 2>/dev/null
  (cd /tmp/vp.$ID && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p >/tmp/plant.$ID.$p.out 2>&1; echo "$ID: check $p exit $? $(grep -m1 VIOLATION /tmp/plant.$ID.$p.out)"; grep -m3 -iE "class|detail" /tmp/plant.$ID.$p.out | cut -c1-300)
  rm -rf "/tmp/vp.$ID"
done
