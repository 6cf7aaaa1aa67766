#!/bin/bash
# seedcheck.sh [id ...]: runs the check of each planted bug's property against a scratch copy with the bug
mkdir -p /tmp/mut
cd /verif/seeded
for i in ${@:-*}; do
  rsync -a --delete --exclude target --exclude .git /repo/ /tmp/mut/repo/
  (cd /tmp/mut/repo && patch -p1 -s < /verif/seeded/$i/patch.diff) || { echo "$i: doesn't apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  o=$(SA_REPO=/tmp/mut/repo SA_BUILD=/tmp/mut/build PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 python3 /verif/sa/run.py $p 2>&1)
  if grep -q "VIOLATION property=$p" <<<"$o"; then echo "$i $p CAUGHT $(grep -A2 "^$p: rule" <<<"$o" | head -3 | tr '\n' ' ' | cut -c1-260)"; else echo "$i $p missed: $(tail -1 <<<"$o")"; fi
done
