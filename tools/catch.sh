#!/bin/bash
# catch.sh ID [PROPERTY]: applies seeded/ID to /repo, runs the check of its property, undoes it.
id=$1; d=/verif/seeded/$id
prop=${2:-$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply $d/patch.diff || exit 2
timeout 900 /verif/check.sh $prop quick >/tmp/catch.$id 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id $prop rc=$rc $(grep -c VIOLATION /tmp/catch.$id) $(grep -m1 'kind=' /tmp/catch.$id | cut -c1-200)"
[ $rc -eq 1 ]
