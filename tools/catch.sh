#!/bin/bash
# catch.sh BUGID [PROP...]: applies to a copy of /repo/src, runs checks
b=$1; shift
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
D=$(mktemp -d /tmp/catch-XXXX); cp -a /repo/src $D/src; (cd $D && patch -sp1 < /verif/seeded/$b/patch.diff) || echo patch failed
for p in ${@:-$P}; do out=$(VP_REPO=$D VERIF_SEED=${S:-1} /verif/check.sh $p 2>&1); rc=$?; echo "$b $p rc $rc $(echo "$out" | grep -m1 VIOLATION) | $(echo "$out" | grep -v VIOLATION| head -1 | cut -c1-160)"; done
rm -rf $D
