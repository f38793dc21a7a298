#!/bin/bash
# all.sh REPO : run all checks on REPO, show problems
cd /verif
R=${1:-/repo}
ids=$(python3 -c "import json;print(' '.join(c['property'] if 'property' in c else c['id'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))" 2>/dev/null)
for i in $ids; do (o=$(/tmp/ck check /verif $R $i quick 2>&1); rc=$?; [ $rc != 0 ] && { echo "== $i rc=$rc"; echo "$o" | cut -c1-${W:-200} | head -${L:-6}; } ) & done; wait
