#!/bin/bash
# mut.sh 'sed-script' FILE ID...   : run checks against a mutated copy of the library sources
d=$(mktemp -d /tmp/mut-XXXX); cp -a /repo/include $d/
sed -i "$1" "$d/include/$2" || exit 1
diff -rq /repo/include $d/include >/dev/null && echo "NO CHANGE"
shift 2
for id in "$@"; do VERIF_REPO=$d timeout 880 /verif/bin/check $id 2>&1 | tail -4; done
rm -rf "$d"
