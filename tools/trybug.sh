#!/bin/bash
# trybug.sh ID...: applies each planted bug to /repo, runs its property's quick check, undoes it.
for i in "$@"; do
  d=/verif/seeded/$i
  p=${CHECK:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply $d/patch.diff || { echo "$i: does not apply"; continue; }
  (cd /verif && timeout 900 ./check $p > /tmp/trybug.$i.out 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$i $p exit=$r $(grep -c VIOLATION /tmp/trybug.$i.out) $(grep -m1 -v '^ *\[' /tmp/trybug.$i.out | cut -c1-200)"
done
