#!/bin/sh
# bugcheck.sh ID...: runs the property's check with the planted bug applied to /repo
for id; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  (cd /verif && bin/govc check $p >/tmp/bc.$id 2>&1; echo "$id $p exit $?: $(grep VIOLATION /tmp/bc.$id | head -2)")
  git -C /repo checkout -- .
done
