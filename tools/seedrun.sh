#!/bin/bash
# seedrun.sh ID [PROP...]: apply a planted bug to /repo, run the check of its property (or the given ones), undo it.
id=$1; shift
D=/verif/seeded/$id
P="$*"; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -n "$(git -C /repo status --porcelain)" ] && { echo "repo dirty"; exit 2; }
git -C /repo apply $D/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for p in $P; do
  /verif/check.sh $p quick >/tmp/seedrun.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/seedrun.log) :: $(grep -A2 -m1 '^VIOLATION' /tmp/seedrun.log | tail -1 | cut -c1-150)"
done
