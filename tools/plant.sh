#!/bin/bash
# plant.sh ID [PROP...]  - confirm a planted bug in a scratch copy (user namespace, bind mounts):
# demo passes before, patch applies, builds, stable tests pass, demo fails after; then the quick checks of PROP.
# SKIPTEST=1 skips build/tests/demo and only runs the checks.
id=$1; shift
d=/verif/seeded/$id
s=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$s"' EXIT
cp -a /repo $s/repo
rm -rf $s/repo/_build/results
mkdir -p $s/verif
(cd /verif && tar cf - --exclude=./seeded --exclude=./evidence --exclude=./.git . ) | tar xf - -C $s/verif
cp -a $d $s/demo
cat > $s/run.sh <<'X'
s=$1; shift; props="$*"
mount --bind $s/repo /repo && mount --bind $s/verif /verif || exit 9
mkdir -p /verif/evidence
cd /repo
if [ -z "$SKIPTEST" ]; then
  bash /opt/vp/build.sh > $s/build0.log 2>&1 || { echo "BASE BUILD FAILED"; exit 1; }
  timeout 300 bash $s/demo/demo.sh > $s/demo0.log 2>&1; r=$?
  echo "demo on base: $r"; [ $r = 0 ] || { tail -20 $s/demo0.log; exit 1; }
fi
git -c safe.directory=/repo apply $s/demo/patch.diff || { echo "PATCH FAILED"; exit 1; }
if [ -z "$SKIPTEST" ]; then
  bash /opt/vp/test.sh $s/out.json > $s/test.log 2>&1
  python3 - $s/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('tests') or b.get('passed') or b
print('missing stable tests:',sorted(set(st)-set(o['passed']))[:10], 'passed',len(o['passed']))
P
  timeout 300 bash $s/demo/demo.sh > $s/demo1.log 2>&1; r=$?
  echo "demo with patch: $r"; tail -3 $s/demo1.log
fi
cd /verif
for p in $props; do
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p quick > $s/check.log 2>&1; r=$?
  echo "check $p: exit $r"; grep -E "VIOLATION|ERROR|rror" $s/check.log | head -3
done
X
unshare -Urm bash $s/run.sh $s "$@" 2>&1 | sed "s/^/[$id] /"
