#!/bin/bash
# tryseed.sh ID [check...]: is the planted bug valid (applies, builds, passes the stable tests, demo tells it apart), and do the checks see it?
# Works in /repo's working tree (must be clean) and undoes the patch afterwards.
id=$1; shift
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "dirty /repo"; exit 2; }
checks=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 2; }
if [ -z "$SKIP_TESTS" ]; then
bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.log 2>&1 || { echo "$id: build or tests failed to run"; tail -5 /tmp/seed.log; }
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed.json'))
m=[x for x in b['stable'] if x not in set(t['passed'])]
print('  missing stable tests:', len(m), m[:3])
P
(cd /repo && timeout 300 bash "$d/demo.sh" > /tmp/seed.demo 2>&1); echo "  demo with the bug: $? (want nonzero) $(tail -1 /tmp/seed.demo)"
fi
for c in $checks; do (cd /verif && node engine/run.js $c --tier ${TIER:-quick} > /tmp/seed.$c 2>&1); echo "  $id: $c exit $? $(grep -c VIOLATION /tmp/seed.$c) violations: $(grep -m1 VIOLATION /tmp/seed.$c)"; done
git -C /repo checkout -q -- .
if [ -z "$SKIP_TESTS" ]; then
bash /opt/vp/build.sh > /dev/null 2>&1
(cd /repo && timeout 300 bash "$d/demo.sh" > /tmp/seed.demo 2>&1); echo "  demo without: $? (want 0) $(tail -1 /tmp/seed.demo)"
fi
