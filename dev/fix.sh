#!/bin/bash
# fix.sh "message": gofmt check, build, stable tests, commit
cd /repo || exit 1
. /verif/dev/env.sh
GOFLAGS=-mod=mod gofmt -l $(git diff --name-only) 
bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/w/test.json >/dev/null 2>&1
python3 - <<'PY' || { echo NOT COMMITTED; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/w/test.json'))
def names(x):
    for k in ('passed','tests','stable','pass'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x)
bs=names(b); ts=names(t)
m=bs-ts
print(len(bs),len(ts),'missing',sorted(m)[:10])
sys.exit(1 if m else 0)
PY
git commit -qam "$1" && git log --oneline | head -1
