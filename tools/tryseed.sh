#!/bin/bash
# tryseed.sh SEED [CHECK...]: runs checks (default: the seed's property) against a planted bug.
s=$1; shift
[ -z "$1" ] && set -- $(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$s/patch.diff || exit 2
for c in "$@"; do /verif/run.sh $c quick >/tmp/seed.c.log 2>&1; rc=$?; echo "$s: $c rc=$rc $(tail -1 /tmp/seed.c.log | grep -o 'wall.*') $(grep ^VIOLATION /tmp/seed.c.log | head -1 | cut -c1-220)"; done
git -C /repo checkout -q -- .
