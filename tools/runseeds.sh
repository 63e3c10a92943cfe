#!/bin/bash
# Run the check of each planted bug's property (or every check with ALL=1) against a scratch copy with the patch applied.
cd "$(dirname "$0")/.."; V=$PWD
for d in seeded/*/; do
  i=$(basename $d); [ -n "$1" ] && [[ ! " $* " == *" $i "* ]] && continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r=/tmp/rs_$i; rm -rf "$r"; mkdir -p $r; cp -a /repo/artist $r/; (cd $r && git init -q . && git apply $V/$d/patch.diff) || echo "$i NOAPPLY"
  [ -n "$ALL" ] && p=$(ls sa/rules | grep -v init | sed 's/.py//' | tr a-z A-Z | grep -v PYCACHE)
  for q in $p; do
  o=$(VERIF_REPO=$r VERIF_EVIDENCE=/tmp/rs_ev python3 check.py $q 2>&1); rc=$?
  [ -n "$ALL" ] && [ $rc = 0 ] && continue
  echo "$i $q rc=$rc $(echo "$o" | grep '\[' | head -1 | cut -c1-170)"
  done
  rm -rf "$r"
done
