#!/bin/bash
# seed.sh ID: take the change in /tmp/mut (a worktree of /repo) as seeded bug ID, whose
# demo_test.go and meta.json are in /verif/seeded/ID; check that it counts.
id=$1; d=/verif/seeded/$id
git -C /tmp/mut diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
[ -f $d/demo_test.go ] && cp /verif/tools/demo/demo.sh /verif/tools/demo/fed_test.go $d/
. /opt/vp/env.sh
export DEMO_GOCACHE=/tmp/democache
(cd /tmp/mut && go build ./... ) || { echo "does not build"; exit 1; }
# stable tests
(cd /tmp/mut && go test -json -vet=off -count=1 ./... > /tmp/mut.json 2>/dev/null; python3 /opt/vp/results.py /tmp/mut.out gojson:/tmp/mut.json >/dev/null 2>&1
python3 - <<'P'
import json
o=set(json.load(open('/tmp/mut.out'))['passed']); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[t for t in b if t not in o]
print('stable tests missing:',len(m),m[:3])
P
)
(cd /tmp/mut && bash $d/demo.sh > /tmp/demo.mut 2>&1); a=$?
(cd /repo && bash $d/demo.sh > /tmp/demo.ok 2>&1); b=$?
echo "demo with change: $a, without: $b"
[ $a = 0 ] && tail -5 /tmp/demo.mut
[ $b != 0 ] && tail -15 /tmp/demo.ok
git -C /repo status --short | head -3
exit 0
