#!/bin/bash
# seedcheck.sh ID...: run the property's quick check against each planted bug (in a scratch copy of /repo).
for id in "$@"; do
  s=/tmp/seedcheck-$$; rm -rf "$s"; mkdir -p $s; (cd /repo && git archive HEAD | tar -x -C $s)
  (cd $s && git init -q . 2>/dev/null && git apply /verif/seeded/$id/patch.diff) || { echo "$id: no apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  o=$(VERIF_REPO=$s VERIF_BUILD=${SEEDBUILD:-/tmp/seedbuild} VERIF_NOWRITE=1 python3 /verif/run.py $p ${TIER:+--tier $TIER} 2>&1); r=$?
  echo "$id: exit $r $(echo "$o" | grep -c '^VIOLATION') :: $(echo "$o" | grep 'facet ' | head -2 | cut -c1-160 | tr '\n' ';') $(echo "$o" | tail -1)"
  rm -rf $s
done
