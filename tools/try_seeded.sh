#!/bin/bash
# try_seeded.sh ID...: demo on clean and patched tree, stable tests, then the property's check. Leaves /repo as it was.
cd /repo || exit 1
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 1; }
for id in "$@"; do
  s=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  bash $s/demo.sh >/tmp/ts.clean 2>&1; a=$?
  git apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/ts.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1
  t=$(python3 -c "
import json;d=json.load(open('/tmp/ts.json'));s=json.load(open('/opt/vp/BASELINE.json'))['stable']
print(all(x in json.dumps(d.get('passed',d)) for x in s))")
  bash $s/demo.sh >/tmp/ts.bug 2>&1; c=$?
  if [ -z "$NOCHECK" ]; then /verif/bin/check $p quick >/tmp/ts.check 2>&1; d=$?; else d=skipped; fi
  git checkout -q -- .
  echo "$id: demo clean=$a bug=$c build=$b tests=$t check($p)=$d $(grep -m1 VIOLATION /tmp/ts.check | cut -c1-150)"
done
