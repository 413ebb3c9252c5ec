#!/bin/bash
# tools/runseed.sh ID [PROP]: run the check of a stored seed
S=/verif/seeded/$1; P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo apply $S/patch.diff && (cd /verif && python3 check.py $P quick 2>&1 | cut -c1-600 | tail -${3:-8}); git -C /repo checkout -- .
