#!/bin/bash
# devrun.sh ID... : runs the property's quick check on scratch copies with the seed applied
for id in "$@"; do
  d=/verif/seeded/$id; [ -d "$d" ] || d=/tmp/seedtool/extra/$id
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  v=/tmp/dv_$id; r=/tmp/dr_$id
  rm -rf "$v" "$r"; mkdir "$v"; cp -a /repo "$r"; (cd /verif && cp -a checks harness java spec run.py known-findings.json properties.jsonl "$v/"; [ -d build ] && cp -a build "$v/"; [ -d work ] && true)
  sed -i "s#/repo/src:#$r/src:#" $v/harness/vlib.py
  (cd $r && git apply $d/patch.diff) || echo "$id DOES NOT APPLY"
  s=$(date +%s); out=$(cd $v && VERIF_TIER=${TIER:-quick} VERIF_SEED=${SEED:-1} timeout 1500 python3 run.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 -E 'failing|ERROR|OK|KNOWN' | cut -c1-140)"
  rm -rf "$v" "$r"
done
