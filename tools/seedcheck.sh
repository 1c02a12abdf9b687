#!/bin/bash
# seedcheck.sh ID...: confirms each planted change in a scratch copy of /repo (tests pass, demo fails with it, passes without)
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/seedwork_$$_$id
  rm -rf "$w"; cp -a /repo "$w"; cp -a "$d" "$w.demo"
  ( cd "$w" && git checkout -q -- . )
  clean=$(cd "$w" && PYTHONPATH="$w/src" timeout 300 bash "$w.demo/demo.sh" >/dev/null 2>&1; echo $?)
  ( cd "$w" && git apply "$d/patch.diff" ) || echo "$id: DOES NOT APPLY"
  bad=$(cd "$w" && PYTHONPATH="$w/src" timeout 300 bash "$w.demo/demo.sh" >/dev/null 2>&1; echo $?)
  t=$(cd "$w" && PYTHONPATH="$w/src" timeout 600 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -1)
  echo "$id clean=$clean patched=$bad tests: $t"
  rm -rf "$w" "$w.demo"
done
