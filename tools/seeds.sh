#!/bin/bash
# seeds.sh [id...]: run each planted bug against the check of its property
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])"); echo -n "$d "; tools/try.sh "$PWD/seeded/$d/patch.diff" $p; done
