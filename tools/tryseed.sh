#!/bin/bash
# tryseed.sh id...: demo without, then build+tests+demo+check with the patch; SEED_REPO: a scratch copy to use in place of /repo
R=${SEED_REPO:-/repo}
export VERIF_REPO=$R
B=$R/_build/Release
mkdir -p /tmp/try; sed "s#/repo#$R#g" /opt/vp/build.sh > /tmp/try/build.sh; sed "s#/repo#$R#g; s#/opt/vp/build.sh#/tmp/try/build.sh#g" /opt/vp/test.sh > /tmp/try/test.sh
bash /tmp/try/build.sh >/dev/null 2>&1
for id in "$@"; do
  d=/verif/seeded/$id
  (cd $R && timeout 300 bash $d/demo.sh > /tmp/demo.out 2>&1); a=$?
  [ $a = 0 ] || tail -5 /tmp/demo.out
  git -C $R apply $d/patch.diff || continue
  bash /tmp/try/test.sh /tmp/ts.json > /tmp/tst.out 2>&1
  t=$(python3 -c "
import json
s=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('/tmp/ts.json'))['passed'])
print('tests', 'ok' if all(x in p for x in s) else 'FAIL %s'%[x for x in s if x not in p])")
  (cd $R && timeout 300 bash $d/demo.sh > /tmp/demo.out 2>&1); b=$?
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r=""
  [ "$NOCHECK" ] || r=$(cd /verif && timeout 900 python3 bin/check.py $p --workers=${WORKERS:-8} 2>&1 | grep -E "^violated|^VIOLATION|ERROR|held" | cut -c1-150 | tr '\n' '|')
  git -C $R checkout -q -- .
  echo "$id: demo clean=$a patched=$b $t ($(tail -1 /tmp/demo.out|cut -c1-100)) $p: $r"
done
bash /tmp/try/build.sh >/dev/null 2>&1
