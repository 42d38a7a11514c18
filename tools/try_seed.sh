#!/bin/bash
# try_seed.sh ID...: run the check of each planted bug's property against it (applied to a copy of /repo)
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r=$(mktemp -d /tmp/tryseed.XXXX); cp -a /repo/. $r/
  git -C $r apply $d/patch.diff || echo "does not apply"
  VERIF_REPO=$r python3 /verif/check.py $p quick > $r.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep VIOLATION $r.log | head -2)"; grep -E 'undischarged|failing input' $r.log | sort -r | head -5
  rm -rf "$r"
done
