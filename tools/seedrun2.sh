#!/bin/bash
# seedrun2.sh ID [CHECK...]: like seedrun.sh, in a scratch clone of /repo
id=$1; shift; r=/tmp/w/sr_$id; rm -rf "/tmp/w/sr_$id"; git clone -q /repo $r || exit 1; git -C $r apply /verif/seeded/$id/patch.diff || exit 1
cd /verif; P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
for p in $P; do LS_REPO=$r timeout 900 python3 check.py $p --tier quick > /tmp/w/sr_$id.log 2>&1; rc=$?; cut -c1-200 /tmp/w/sr_$id.log | grep -E "VIOLATION|KNOWN|rror|\[" | head -3; echo "== $id $p rc=$rc"; done; rm -rf "/tmp/w/sr_$id"
