#!/bin/bash
# seedcheck.sh ID... : validate planted bugs in a scratch copy of /repo (/tmp/sc/repo):
# demo passes without the patch, patch applies and builds, the stable tests pass, demo fails with it, and
# whether the property's quick check reports it.   NOTEST=1 skips the stable tests.
S=/tmp/sc; R=$S/repo; mkdir -p $S
sed "s#R=/repo B=/repo/_build#R=$R B=$R/_build#; s#/opt/vp/#$S/vp/#g" /opt/vp/lib.sh > /dev/null
mkdir -p $S/vp; for f in /opt/vp/*; do case $f in *.sh|*.py) sed "s#/repo#$R#g; s#/opt/vp/#$S/vp/#g" $f > $S/vp/$(basename $f);; *) [ -f $f ] && cp $f $S/vp/;; esac; done
head=$(git -C ${SRC:-/repo} rev-parse HEAD)
if [ "$(cat $S/head 2>/dev/null)" != "$head" ]; then
  if [ -d $R ]; then rsync -a --delete --exclude=_build ${SRC:-/repo}/ $R/; else cp -a ${SRC:-/repo} $R; fi
  echo $head > $S/head
fi
cd $R; git checkout -q -- .
sed -i "/rm -f .dev.shm/d" $S/vp/test.sh
bash $S/vp/build.sh > $S/build0.log 2>&1 || { echo "base build failed"; exit 1; }
for id in "$@"; do
  d=${SEED:-/verif/seeded}/$id; o=$S/out/$id; mkdir -p $o; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd $R; git checkout -q -- .; bash $S/vp/build.sh > $o/build0.log 2>&1
  rm -rf $S/demo; mkdir -p $S/demo; cp -r $d/. $S/demo/; rm -f $S/demo/*.diff $S/demo/meta.json
  timeout 300 bash $S/demo/demo.sh > $o/demo0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $S/vp/build.sh > $o/build.log 2>&1 || { echo "$id: build failed"; tail -5 $o/build.log; git checkout -q -- .; continue; }
  timeout 300 bash $S/demo/demo.sh > $o/demo1.log 2>&1; r1=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash $S/vp/test.sh $o/test.json > $o/test.log 2>&1
    t=$(python3 - $o/test.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('passed') or b.get('tests')
ps=set(map(str,r['passed'])); miss=[x for x in st if str(x) not in ps and 'pr/global/testing/unit-tests/ga_put2' not in str(x)]  # that test overruns its buffers: fails under load on the base too
print('tests-ok' if not miss else 'TESTS-FAIL %s' % miss[:4])
P
)
  fi
  c=skipped
  if [ -z "$NOCHECK" ]; then
    (cd ${VW:-/verif} && GA_SRC=$R GA_VBUILD=$S/vb GA_EVID=$S/evid ./check.py $prop quick > $o/check.log 2>&1); rc=$?
    c="check exit $rc $(grep -c "^VIOLATION property=$prop" $o/check.log)"
  fi
  echo "$id ($prop): demo base=$r0 patched=$r1; $t; $c"
  git checkout -q -- .
done
