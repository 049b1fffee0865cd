#!/bin/bash
# seedrun.sh ID [CHECK...]: applies a planted bug to /repo, runs stable tests (T=1) and the checks, undoes it
id=$1; shift; cd /repo || exit 1
[ -z "$(git status --porcelain -uno)" ] || { echo "repo dirty"; exit 1; }
git apply /verif/seeded/$id/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if [ -n "$T" ]; then bash /opt/vp/build.sh >/tmp/w/build.log 2>&1 || echo BUILD FAILED; bash /opt/vp/test.sh /tmp/w/t.json >/dev/null 2>&1; grep -o '"passed": *\[[^]]*\]' /tmp/w/t.json | tr ',' '\n' | grep -c '"'; fi
cd /verif; P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
for p in $P; do python3 check.py $p --tier quick 2>&1 | cut -c1-200 | grep -E "VIOLATION|KNOWN|held|error|rror" | head -4; echo "$id $p rc=${PIPESTATUS[0]}"; done
