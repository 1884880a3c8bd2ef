#!/bin/bash
# try.sh SEED [ID...]: runs the named checks (default: the seed's property) against a planted bug and restores /repo.
s=$1; shift
d=/verif/seeded/$s
ids=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 2
for i in $ids; do /tmp/xta check $i quick > /tmp/try.out 2>&1; echo "$s $i rc=$?"; grep -v VIOLATION /tmp/try.out | cut -c1-260 | head -${TRYN:-2}; done
git -C /repo checkout -- .
