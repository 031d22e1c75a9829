#!/bin/bash
# all registered quick checks, as registered
cd "$(dirname "$0")/.."
for c in ${@:-$(python3 -c "import json;print(*[c.get('id') or c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick ./check.sh $c > /tmp/all_$c.log 2>&1; echo "$c exit $? $(tail -1 /tmp/all_$c.log)"
done
