#!/bin/bash
# seedtest.sh ID [check]: confirm planted bug seeded/ID in a scratch copy of /repo bind-mounted over
# /repo in a private mount namespace; with "check", also run the quick check of its property.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; MODE=${2:-}
S=/tmp/seed.$ID
rm -rf "$S" && mkdir -p "$S"
cp -a "${SEED_REPO:-/repo}" "$S/repo"
git -C "$S/repo" checkout -q -- .
cp -a "$V/seeded/$ID" "$S/demo"
PROP=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
cat > "$S/run.sh" <<EOS
mount --bind $S/repo /repo || exit 9
cd /repo
echo "== demo on the unchanged tree"; bash /opt/vp/build.sh >$S/b0.log 2>&1 || { echo BUILD0 FAILED; exit 9; }
timeout 300 bash $S/demo/demo.sh > $S/d0.log 2>&1; echo "rc=\$? (want 0)"
git apply $V/seeded/$ID/patch.diff || { echo PATCH DOES NOT APPLY; exit 9; }
bash /opt/vp/build.sh >$S/b1.log 2>&1 || { echo BUILD1 FAILED; tail -5 $S/b1.log; exit 9; }
bash /opt/vp/test.sh $S/t1.json >$S/t1.log 2>&1
python3 - <<EOP
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$S/t1.json'))
base=set(b.get('stable',b.get('passed',b if isinstance(b,list) else [])))
print('== tests with the change: lost', sorted(base-set(t['passed']))[:5], len(base))
EOP
timeout 300 bash $S/demo/demo.sh > $S/d1.log 2>&1; echo "== demo with the change rc=\$? (want nonzero)"
if [ "$MODE" = check ]; then
  VERIF_SEED=\${VERIF_SEED:-1} VERIF_BUILD=$S/vbuild VERIF_WORK=$S/work VERIF_EVIDENCE=$S/ev python3 $V/check.py $PROP quick > $S/check.log 2>&1
  echo "== check $PROP rc=\$? (want 1)"; tail -3 $S/check.log
fi
EOS
unshare -m bash "$S/run.sh"
[ "${KEEP:-}" ] || rm -rf "$S"
