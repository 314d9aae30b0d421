#!/bin/bash
# trysecond.sh ID...: does the check of its property catch planted bug ID? (works on /repo's tree and undoes it)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  s=$(date +%s); out=$(cd /verif && bash check.sh $p --tier quick 2>/dev/null); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -A1 -m1 '^#' | head -1)"
done
