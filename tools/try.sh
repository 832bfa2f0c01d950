#!/bin/bash
# try.sh SEEDID [CHECK...]: apply a planted bug to /repo, run its property's check (or those given), undo
s=/verif/seeded/$1; shift
p=${@:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
git -C /repo apply $s/patch.diff || exit 1
for c in $p; do /verif/check.py $c 2>&1 | tail -${TAIL:-3}; done
git -C /repo checkout -q -- .
