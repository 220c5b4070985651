#!/bin/bash
# catch.sh [seeded id...]: run each planted bug's own check against a scratch copy; one line each
cd "$(dirname "$0")/.."
for b in ${@:-$(ls seeded)}; do
  p=$(/usr/bin/python3 -c "import json,sys; print(json.load(open('seeded/$b/meta.json'))['property'])")
  echo "$b $(tools/against.sh seeded/$b/patch.diff $p)"
done
