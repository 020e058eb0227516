#!/bin/bash
# mkbug.sh <id>: takes the change in /tmp/bugwork (a copy of /repo) as seeded/<id>/patch.diff, checks the demonstration both ways
id=$1; d=/verif/seeded/$id
git -C /tmp/bugwork diff > $d/patch.diff
cp /verif/tools/demolib.py $d/lib.py
