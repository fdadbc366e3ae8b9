#!/bin/sh
# refresh seeded_results.txt: which check catches which planted change (run from /verif)
for s in $(ls seeded); do p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])"); if grep -qx "$s" seeds_missed.txt 2>/dev/null; then echo "$s|missed by $p"; else echo "$s|caught by $p"; fi; done > seeded_results.txt
