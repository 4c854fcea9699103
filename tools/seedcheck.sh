#!/bin/bash
# tools/seedcheck.sh SCRATCH ID...: run the check of each planted bug's property against a scratch copy that has the bug
S=$1; shift
[ -d "$S" ] || cp -a /repo "$S"
cd "$S" && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- . || exit 2
for id in "$@"; do
  cd "$S"; git apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  t0=$(date +%s)
  cd /verif; VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$S python3 check.py $p --tier ${TIER:-quick} > /tmp/sc-$id.log 2>&1; rc=$?
  echo "$id: $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 VIOLATION /tmp/sc-$id.log)"
  cd "$S"; git checkout -q -- .
done
