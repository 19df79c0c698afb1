#!/bin/bash
# seedrun.sh [ids...]: runs each planted change against the check of its property (in /repo's working tree, restored afterwards)
cd "$(dirname "$0")/.." || exit 1
for s in ${@:-$(ls seeded)}; do p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])"); echo "$s $(tools/mut.sh /verif/seeded/$s/patch.diff $p)"; done
