#!/bin/bash
# seedtest.sh ID...: (development only) applies each seeded patch to a scratch clone (/tmp/w/st, built by the copies of
# build.sh and test.sh in /tmp/w/vp that name it), runs the stable tests, the demo and the property's quick check there
# (GBS_REPO), and undoes the patch.  Prints one line per bug.
S=/tmp/w/st
git -C $S checkout -q -- . ; git -C $S pull -q /repo HEAD
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(mktemp -d); cp "$d"/* $s/; rm -f $s/patch.diff $s/meta.json
  (cd $S && timeout 300 bash $s/demo.sh >/tmp/w/vp/clean_$id.log 2>&1); c0=$?
  if ! git -C $S apply $d/patch.diff; then echo "$id: patch does not apply"; continue; fi
  (cd $S && timeout 300 bash $s/demo.sh >/tmp/w/vp/bug_$id.log 2>&1); c1=$?
  (cd /verif && GBS_REPO=$S VERIF_EVID=/tmp/w/vp/evid timeout 900 python3 bin/check.py $prop quick >/tmp/w/vp/chk_$id.log 2>&1); k=$?
  t=skipped
  if [ -z "$NOTESTS" ]; then
  bash /tmp/w/vp/test.sh /tmp/w/vp/out.json >/tmp/w/vp/test_$id.log 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/vp/out.json'))
st=b.get('stable') or b.get('passed') or b
st=[x if isinstance(x,str) else x.get('name') for x in st]
miss=[x for x in st if x not in set(o['passed'])]
print('tests-ok' if not miss else 'TESTS-FAIL:%d %s'%(len(miss),miss[:3]))
P
)
  fi
  git -C $S checkout -q -- .
  rm -rf "$s"
  echo "$id prop=$prop demo_clean=$c0 demo_bug=$c1 $t check_exit=$k $(grep -h -o 'op=[a-z0-9]*' /tmp/w/vp/chk_$id.log | head -1)" | tee -a /tmp/w/vp/results.txt
done
