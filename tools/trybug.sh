#!/bin/bash
# tools/trybug.sh ID [CHECK...]: tries a planted bug in an overlay of /repo and
# of the build, which is thrown away: demo on the unchanged tree, build, stable
# tests, demo with the patch, and the quick check of its property (or CHECKs).
# ID:STAGES skips stages, e.g. NO_TEST=1 tools/trybug.sh ID.
ID=$1; shift
D=/verif/seeded/$ID
[ -d "$D" ] || exit 2
if [ -z "$IN_NS" ]; then
  X=/tmp/bug/$ID.$$
  mkdir -p $X/{ru,rw,bu,bw}
  IN_NS=1 X=$X unshare -Urm bash "$0" "$ID" "$@"
  rc=$?
  chmod -R u+rwX $X 2>/dev/null
  case $X in /tmp/bug/*) find $X -delete ;; esac
  exit $rc
fi
export PYTHONDONTWRITEBYTECODE=1
mount -t overlay overlay -o lowerdir=/repo,upperdir=$X/ru,workdir=$X/rw,userxattr /repo || exit 2
mount -t overlay overlay -o lowerdir=/opt/nisaba-build,upperdir=$X/bu,workdir=$X/bw,userxattr /opt/nisaba-build || exit 2
cp -r $D $X/demo; mkdir $X/ev; mount --bind $X/ev /verif/evidence; rm -f $X/demo/patch.diff $X/demo/meta.json
cd /repo
bash $X/demo/demo.sh >$X/demo0.log 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >$X/build.log 2>&1; b=$?
lost=skipped
if [ -z "$NO_TEST" ]; then
  bash /opt/vp/test.sh $X/t.json >$X/test.log 2>&1
  lost=$(python3 - $X/t.json <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
t = json.load(open(sys.argv[1]))['passed']
print(sorted(set(b) - set(t))[:5])
P
)
fi
bash $X/demo/demo.sh >$X/demo1.log 2>&1; c=$?
echo "$ID: demo unchanged=$a (want 0), build=$b (want 0), lost tests=$lost, demo patched=$c (want nonzero)"
[ $a = 0 ] || tail -5 $X/demo0.log
[ $b = 0 ] || tail -15 $X/build.log
[ $c != 0 ] && tail -3 $X/demo1.log
[ $# = 0 ] && [ -z "$NO_CHECK" ] && set -- $(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /verif
for p in "$@"; do
  t0=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} python3 run_check.py $p >$X/chk.log 2>$X/chk.err; rc=$?
  echo "$ID: check $p exit=$rc in $(( $(date +%s) - t0 )) s: $(grep -m1 VIOLATION $X/chk.log)"
  [ $rc = 2 ] && tail -5 $X/chk.err
done
exit 0
