#!/bin/bash
# trybug.sh ID [PROPERTY...]: apply a planted bug to /repo, run the checks, undo it.
V=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 3; }
B=$1; shift
P=${*:-$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$B/meta.json'))['property'])")}
git -C /repo apply "$V/seeded/$B/patch.diff" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
for p in $P; do
  o=$(cd "$V" && VERIF_SEED=${VERIF_SEED:-1} bin/check $p 2>&1); rc=$?
  echo "$B $p exit=$rc $(echo "$o" | grep -v '^VIOLATION\|^KNOWN' | head -1 | cut -c1-220)"
done
