#!/bin/bash
# seedtest.sh -t ID...: the repository's tests with each planted bug (applied to /repo and undone)
# seedtest.sh -c ID...: the checks against each planted bug in a scratch clone (own property, or CHECKS="C01 C02")
mode=$1; shift
for id in "$@"; do
  s=/verif/seeded/$id
  if [[ $mode == -t ]]; then
    git -C /repo apply $s/patch.diff || { echo "$id: does not apply"; continue; }
    trap 'git -C /repo checkout -q -- .' EXIT
    bash /opt/vp/test.sh /tmp/seed-$id.json > /tmp/seed-$id.log 2>&1
    git -C /repo checkout -q -- .
    trap - EXIT
    python3 - $id <<'P'
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r = json.load(open('/tmp/seed-%s.json' % sys.argv[1]))
miss = b - set(r['passed'])
print(sys.argv[1], 'tests:', 'pass' if not miss else 'FAIL %s' % sorted(miss))
P
  else
    t=$(mktemp -d /tmp/seedclone-XXXXXX)
    git clone -q /repo $t/w && git -C $t/w apply $s/patch.diff || { echo "$id: does not apply"; rm -r $t; continue; }
    for c in ${CHECKS:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}; do
      VERIF_REPO=$t/w /verif/bin/check $c > /tmp/seed-$id-$c.log 2>&1; rc=$?
      echo "$id check $c: rc=$rc $(grep -m1 -- '^-- ' /tmp/seed-$id-$c.log | cut -c1-200)"
    done
    rm -r $t
  fi
done
