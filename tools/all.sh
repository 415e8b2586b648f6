#!/bin/bash
# runs the quick check of every claimed property on the current tree
cd "$(dirname "$0")/.."
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do python3 check.py $p --tier quick; echo "-> $p rc=$?"; done
