#!/bin/bash
# all_bugs.sh [ID...]: runs the check of the property of each planted bug against it.
cd /verif/seeded || exit 3
for b in ${@:-*}; do
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  /verif/tools/try.sh "$b" "/verif/seeded/$b/patch.diff" "$p" | cut -c1-260
done
