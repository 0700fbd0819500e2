#!/bin/bash
# bash check.sh ID [notests]: validates /verif/seeded/ID in the scratch clone /tmp/plant/repo (at /repo's HEAD).
ID=$1; R=/tmp/plant/repo; S=/verif/seeded/$ID
cd $R || exit 9
git fetch -q origin && git reset -q --hard origin/main && git clean -fdq -e target
[ "$(git rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || { echo "clone not at HEAD"; exit 9; }
D=/tmp/plant/demo; rm -rf /tmp/plant/demo; mkdir -p $D; cp -r $S/. $D; rm -f $D/patch.diff $D/meta.json
bash $D/demo.sh >/tmp/plant/clean.log 2>&1; a=$?
git apply --check $S/patch.diff || exit 8
git apply $S/patch.diff
bash $D/demo.sh >/tmp/plant/mut.log 2>&1; b=$?
echo "$ID: clean=$a mutant=$b"; grep -E "panicked|^error|assertion|left|right" /tmp/plant/mut.log | cut -c1-150 | head -5
[ $a -eq 0 ] || tail -15 /tmp/plant/clean.log
if [ "$2" != notests ]; then
  sed "s#/repo#$R#g; s#/opt/vp/env.sh#/tmp/plant/env.sh#" /opt/vp/test.sh > /tmp/plant/test.sh
  sed "s#/repo/target#$R/target#" /opt/vp/env.sh > /tmp/plant/env.sh
  bash /tmp/plant/test.sh /tmp/plant/out.json >/tmp/plant/test.log 2>&1
  python3 - <<'P'
import json
o=json.load(open('/tmp/plant/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print("stable tests broken:",len(m),m[:4])
P
fi
git checkout -q -- . ; git clean -fdq -e target
