#!/bin/bash
# catch.sh <bug> [property ...]: applies a seeded change in /repo, runs checks, undoes it
d=/verif/seeded/$1; shift
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 2
for q in ${@:-$p}; do python3 /verif/check.py $q 2>&1 | tail -4; done
git -C /repo checkout -q -- .
