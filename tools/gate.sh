#!/bin/bash
# every check, shortened: the proofs must hold on the unchanged tree
cd "$(dirname "$0")/.." || exit 2
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null || echo C01); do
  VERIF_SECS=${VERIF_SECS:-3} python3 check.py $p | tail -1
done
