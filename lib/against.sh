#!/bin/bash
# Development aid: runs checks against planted bugs on /repo itself, undoing each. usage: against.sh "P01 P02" ID...
props=$1; shift
for id in "$@"; do
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  for p in ${props:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}; do
    python3 /verif/check.py $p > /tmp/against.out 2>&1; rc=$?
    echo "$id $p rc=$rc $(grep -c '^  [a-z]' /tmp/against.out) $(grep -m1 '^  [a-z]' /tmp/against.out) $(grep undecided /tmp/against.out)"
  done
  git -C /repo checkout -q -- .
done
