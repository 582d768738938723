#!/bin/bash
# tools/bug.sh ID [PROP...]: applies a planted bug to /repo, builds, runs the tests and the demo
# (also on the clean tree) and the given checks, then restores /repo.
id=$1; shift
d=/verif/seeded/$id
git -C /repo status --porcelain --untracked-files=no | grep -q . && { echo "/repo is dirty"; exit 2; }
if [ -z "$NOCLEAN" ]; then
bash /opt/vp/build.sh >/tmp/bug.log 2>&1 || exit 3
(cd /repo && bash $d/demo.sh >/tmp/demo.clean 2>&1); echo "$id demo clean: $?"
fi
git -C /repo apply $d/patch.diff || exit 4
trap 'git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/bug.log 2>&1 || { echo "build failed"; tail -5 /tmp/bug.log; exit 5; }
(cd /repo && bash $d/demo.sh >/tmp/demo.bug 2>&1); echo "$id demo with bug: $? $(grep -a DEMO /tmp/demo.bug | head -1 | cut -c1-150)"
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/bug.json >/tmp/bugt.log 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/bug.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=json.dumps(b)
miss=[x for x in (b.get('stable') or b.get('passed') or []) if x not in t['passed']]
print("tests passed", len(t['passed']), "failed", t['failed'][:5], "missing stable", miss[:5])
P
fi
cd /verif
for p in "$@"; do bash check.sh $p 2>&1 | grep -a "VIOLATION\|^runs=" | head -3 | cut -c1-260; done
