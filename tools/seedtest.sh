#!/bin/bash
# seedtest.sh ID... : plants each bug of seeded/ in a scratch copy of /repo: builds, runs the tests, the demo with and without it, and the check
cd "$(dirname "$0")/.."
for id in "$@"; do
  d=$PWD/seeded/$id; w=/tmp/seedtest-$id
  rm -rf "/tmp/seedtest-$id"; mkdir -p $w; cp -a /repo $w/repo
  if ! git -C $w/repo apply $d/patch.diff; then echo "$id: PATCH DOES NOT APPLY"; rm -rf "/tmp/seedtest-$id"; continue; fi
  sed "s#/repo#$w/repo#g; s#/opt/vp/build.sh#$w/build.sh#" /opt/vp/build.sh > $w/build.sh
  sed "s#/repo#$w/repo#g; s#/opt/vp/build.sh#$w/build.sh#" /opt/vp/test.sh > $w/test.sh
  rm -rf "/tmp/seedtest-$id/repo/_build"
  bash $w/test.sh $w/out.json > $w/log 2>&1
  t=$(python3 -c "import json;d=json.load(open('$w/out.json'));print(len(d['passed']),'passed',len(d['failed']),'failed')")
  (cd $w/repo && bash $d/demo.sh > $w/demo.log 2>&1); dp=$?
  (cd /repo && bash $d/demo.sh > $w/demo0.log 2>&1); d0=$?
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  c=skipped
  if [ -z "$NOCHECK" ]; then HUMOTO_REPO=$w/repo python3 run.py $p quick > $w/check.log 2>&1; c="$? $(grep -c '^VIOLATION' $w/check.log)v $(grep -m1 'failed obligation' $w/check.log)"; grep -q no-failing $w/check.log && c="$c NOINPUT"; fi
  echo "$id [$p] tests: $t; demo clean=$d0 patched=$dp ($(tail -1 $w/demo.log | cut -c1-80)); check: $c"
  [ "$d0" = 0 ] || tail -3 $w/demo0.log
  rm -rf "/tmp/seedtest-$id"
done
