#!/bin/bash
# seedcheck.sh [id...]: run the owning check (or all with ALL=1) against each seeded change, in /repo, undoing it afterwards
cd "$(dirname "$0")/.."
ids=${@:-$(ls seeded)}
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
  rm -rf .cache/seed; ./extract.sh .cache/seed >/dev/null 2>&1 || echo "$i extract failed"
  git -C /repo checkout -q -- .
  props=$p; [ -n "$ALL" ] && props=$(cat tools/claimed.txt)
  for q in $props; do
    out=$(CBG_FACTS=/verif/.cache/seed ./check.sh $q quick 2>&1); rc=$?
    [ "$q" = "$p" -o $rc -ne 0 ] && echo "$i [$p] $q rc=$rc $(echo "$out" | grep -v '^VIOLATION\|obligations disch\|KNOWN' | head -2 | cut -c1-260)"
  done
done
