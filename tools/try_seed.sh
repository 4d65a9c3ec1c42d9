#!/bin/bash
# tools/try_seed.sh ID [tier]: applies a planted bug to /repo, runs its property's check, undoes it.
id=$1
prop=${3:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
timeout 900 /verif/check.sh $prop ${2:-quick} > /tmp/try_$id.$prop.log 2>&1
rc=$?
echo "$id $prop rc=$rc $(grep -a -m1 VIOLATION /tmp/try_$id.$prop.log)"
