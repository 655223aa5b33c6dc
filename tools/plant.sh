#!/bin/bash
# plant.sh <seeded-id> [property...]: tries a planted bug in private overlays of /repo and /verif
# (user + mount namespace, nothing outside changes): builds and tests it, runs its demo with and
# without the patch, then runs the named checks (default: the one in meta.json).
# PLANT_SKIP_TESTS=1 skips the existing tests.
id=${1:?}; shift
d=/verif/seeded/$id
[ -f "$d/patch.diff" ] || { echo "no $d/patch.diff"; exit 2; }
props=${*:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)}
w=$(mktemp -d /tmp/plant.XXXXXX)
mkdir -p $w/{ru,rw,vu,vw,logs,demo}
cp -r $d/. $w/demo/; rm -f $w/demo/*.diff $w/demo/*.patch $w/demo/meta.json
export W=$w ID=$id PROPS=$props D=$d
unshare -Urm bash -c '
mount -t overlay overlay -o lowerdir=/repo,upperdir=$W/ru,workdir=$W/rw,userxattr /repo || exit 2
mount -t overlay overlay -o lowerdir=${PLANT_VERIF:-/verif},upperdir=$W/vu,workdir=$W/vw,userxattr /verif || exit 2
mount --bind $W/logs /opt/vp/logs || exit 2
cd /repo
if [ -z "${PLANT_SKIP_TESTS:-}" ]; then
  bash $W/demo/demo.sh >$W/demo0.log 2>&1; echo "$ID demo unpatched rc=$?"
fi
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
if [ -z "${PLANT_SKIP_TESTS:-}" ]; then
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo "$ID: BUILD FAILED"; grep -E "^error" -A8 $W/build.log | head -30; exit 2; }
bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo "$ID demo patched rc=$?"; tail -3 $W/demo1.log | cut -c1-300
bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"));t=json.load(open("$W/t.json"));p=set(t["passed"])
bad=[x for x in b["stable"] if x not in p]
print("$ID stable tests failing:",len(bad),bad[:5])
P
fi
for p in $PROPS; do
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash /verif/run.sh $p >$W/$p.log 2>&1; rc=$?
  echo "$ID check $p rc=$rc $(( $(date +%s)-s ))s: $(grep -m1 -E "^VIOLATION|^ERROR" $W/$p.log | cut -c1-200)"
  grep -v "^KNOWN" $W/$p.log | head -6 | cut -c1-400
done
'
[ -n "${PLANT_KEEP:-}" ] || rm -rf "$w"
