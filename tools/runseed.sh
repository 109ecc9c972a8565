#!/bin/bash
# run the checks of the property of each planted bug against a patched copy: tools/runseed.sh [id ...]
cd /verif
for id in ${@:-$(ls seeded)}; do
  W=$(mktemp -d /tmp/rs.XXXXXX); cp -a /repo/. $W/; git -C $W apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  echo "== $id ($P)"; VERIF_REPO=$W VERIF_EVIDENCE=$W/ev timeout 900 python3-vt check.py $P | grep -E "^(VIOLATION|UNDECIDED|  failed|$P:|ERROR)" | cut -c1-260
  rm -rf $W
done
