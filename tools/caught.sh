#!/bin/bash
# caught.sh ID...: run the check of a planted bug's property on a patched copy
for id in "$@"; do
d=$(mktemp -d /tmp/cgXXXXXX); cp -r /repo/macoro $d/; (cd $d && patch -p1 -s < /verif/seeded/$id/patch.diff)
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
o=$(VF_REPO=$d VERIF_SEED=1 VERIF_TIER=quick VF_BUILD=/tmp/mutbuild VF_EVIDENCE=/tmp/mutev /verif/bin/check $p quick 2>&1); rc=$?
echo "$id $p rc=$rc $(echo "$o"|grep -m1 -E 'not allowed|VIOL|error' | cut -c1-180)"
rm -rf "$d"; done
