#!/bin/bash
# tools/trybugs.sh ID...: applies each planted bug to /repo, runs its property's quick check, undoes it; records the outcome in tools/caught.json
cd "$(dirname "$0")/.."
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b does not apply"; continue; }
  s=$(date +%s); out=$(timeout 900 python3 check.py "$p" --tier quick 2>&1); rc=$?; git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then v=yes; else v=no; fi
  echo "$b $p rc=$rc caught=$v $(( $(date +%s)-s ))s $(grep -m2 VIOLATION <<<"$out")"
  python3 - "$b" $v <<'P'
import json,sys
f='tools/caught.json'; k=json.load(open(f)); k[sys.argv[1]]=sys.argv[2]; json.dump(k,open(f,'w'),indent=0,sort_keys=True)
P
done
