#!/bin/bash
# Tries planted changes in a scratch copy of /repo: try_seed.sh ID... [-n]
# (-n: confirm only, do not run the property's check). Used by hand only.
S=/tmp/sr
V=$(cd "$(dirname "$0")/.." && pwd)
[ "${!#}" = "-n" ] && NOCHECK=1
if [ ! -d $S ]; then
  mkdir $S; git -C /repo archive HEAD | tar x -C $S; git -C $S init -q; git -C $S add -A -f; git -C $S -c user.name=x -c user.email=x@x commit -qm x
  sed "s#-S /opt/vp/harness -B /repo/_build#& -DREPO=$S#; s#/repo#$S#g" /opt/vp/build.sh > $S.build.sh
  sed "s#/opt/vp/build.sh#$S.build.sh#; s#/repo/#$S/#g" /opt/vp/test.sh > $S.test.sh
else
  git -C $S checkout -q -- .; (cd /repo && git archive HEAD) | tar x -C $S; git -C $S add -A -f . ':!_build' 2>/dev/null; git -C $S -c user.name=x -c user.email=x@x commit -qm x >/dev/null
fi
for id in "$@"; do
  [ "$id" = "-n" ] && continue
  d=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $S checkout -q -- .
  bash $S.build.sh > $S.log 2>&1 || { echo "$id: clean build failed"; tail -5 $S.log; continue; }
  (cd $S && timeout 300 bash $d/demo.sh > $S.demo0 2>&1); c0=$?
  git -C $S apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $S.test.sh $S.json > $S.log 2>&1; np=$(python3 -c "
import json;j=json.load(open('$S.json'));b=json.load(open('/opt/vp/BASELINE.json'));
bs=set(b['stable'] if 'stable' in b else b.get('passed',[]));print(len(j['passed']),len(j['failed']),len(bs-set(j['passed'])))")
  (cd $S && timeout 300 bash $d/demo.sh > $S.demo1 2>&1); c1=$?
  r=""
  if [ -z "$NOCHECK" ]; then
    t0=$SECONDS
    (cd $V && VP_REPO=$S timeout 900 python3 tools/vp.py $prop --tier quick) > $S.chk 2>&1
    r="check=$? $((SECONDS-t0))s $(grep -a VIOLATION $S.chk)"
  fi
  echo "$id: demo clean=$c0 patched=$c1 tests(pass fail missing)=$np $r"
  git -C $S checkout -q -- .
done
