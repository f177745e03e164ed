#!/bin/bash
# run_seed.sh ID...: applies each planted bug to /repo, runs the check of its
# property (or the one named in PROP) and undoes the change.
for id; do
  d=/verif/seeded/$id
  p=${PROP:-$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply "$d/patch.diff" || continue
  s=$(date +%s)
  out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh check "$p" quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s: $(grep -h '^VIOLATION' <<<"$out" | head -3 | tr '\n' ' ')"
done
