#!/bin/bash
# runs checks and prints short results: run.sh C07 C08 ...
for p in "$@"; do python3 /verif/check.py $p 2>&1 | cut -c1-${W:-400};  python3 -c "
import json;print('  compared', json.load(open('/verif/evidence/$p.json'))['coverage'].get('decisions_compared'))"; done
