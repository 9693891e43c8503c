#!/bin/bash
# tryseed.sh ID... : confirm planted bugs in a scratch copy (tests pass, demo fails with it) and run the property's check
cd "$(dirname "$0")/.."
for id in "$@"; do
  D=$PWD/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  W=$(mktemp -d /tmp/seed_XXXXXX)
  cp -a /repo $W/repo
  git -C $W/repo checkout -q -- .
  mkdir $W/demo; cp -r $D/* $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
  (cd $W/repo && PYTHONDONTWRITEBYTECODE=1 timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1); d0=$?
  git -C $W/repo apply $D/patch.diff || echo "PATCH DOES NOT APPLY"
  (cd $W/repo && PYTHONDONTWRITEBYTECODE=1 timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1); d1=$?
  if [ -z "$SKIPTESTS" ]; then
  (cd $W/repo && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$W/repo /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -x --maxfail=5 \
    -o 'python_files=*.py' --ignore=amlib/soc --ignore=amlib/debug --ignore=amlib/stream/uart.py amlib > $W/t 2>&1); tests=$(tail -1 $W/t)
  fi
  AMLIB_REPO=$W/repo timeout 900 ./run.py $prop --tier quick > $W/c 2>&1; rc=$?
  echo "== $id ($prop): demo clean=$d0 bug=$d1  tests: $tests  check rc=$rc $(grep -c '^VIOLATION' $W/c) $(grep -o "clause='[^']*'" $W/c | head -2 | tr '\n' ' ')"
  [ $d0 = 0 ] || tail -5 $W/d0
  [ $rc = 2 ] && tail -5 $W/c
  rm -rf $W
done
