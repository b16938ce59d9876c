#!/bin/bash
# trybug.sh ID...: confirms each planted bug and runs its property's check against it (REPO: the tree it is tried in; SKIP=1: no build and tests)
R=${REPO:-/repo}
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd $R && bash $d/demo.sh >/tmp/tb.clean 2>&1); a=$?
  git -C $R apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  b=; t=
  if [ -z "$SKIP" ]; then bash /opt/vp/build.sh >/tmp/tb.out 2>&1; b=$?; bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1; t=$(python3 -c "import json;d=json.load(open('/tmp/tb.json'));print(len(d['passed']),len(d['failed']))"); fi
  (cd $R && bash $d/demo.sh >/tmp/tb.patched 2>&1); c=$?
  k=skipped; s=$(date +%s)
  [ -z "$NOCHECK" ] && { (cd /verif; VERIF_REPO=$R VERIF_FAILFAST=1 VERIF_BUDGET_MS=${VERIF_BUDGET_MS:-300000} VERIF_SEED=1 VERIF_TIER=quick node check.js $prop > /tmp/tb.check 2>&1); k=$?; }
  git -C $R checkout -q -- .
  echo "$id ($prop): demo clean=$a build=$b tests=$t demo patched=$c check exit=$k ($(( $(date +%s)-s )) s) $(grep -m1 -B1 VIOLATION /tmp/tb.check | head -1)"
done
