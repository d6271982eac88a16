#!/bin/bash
# try.sh FAM MODULE FOCUS [driver args]: run the driver, validate its traces, list the broken clauses
. /verif/dev/env.sh
export GODEBUG=randautoseed=0
fam=$1 mod=$2 foc=$3; shift 3
mkdir -p /tmp/w/try; rm -f /tmp/w/try/*
mkdir -p /tmp/w/mod; sed "s#=> /repo#=> ${REPO:-/repo}#" /verif/harness/go.mod > /tmp/w/mod/go.mod; cp /verif/harness/go.sum /tmp/w/mod/
(cd /verif/harness && GOFLAGS=-mod=mod go build -modfile=/tmp/w/mod/go.mod -o /tmp/w/driver ./cmd/driver) || exit 1
/tmp/w/driver -fam $fam -focus $foc -out /tmp/w/try/t -chunks 8 "$@" || exit 1
echo
for i in 0 1 2 3 4 5 6 7; do (/verif/dev/tlctrace.sh $mod /tmp/w/try/t.$i.ndjson $foc > /tmp/w/try/o.$i 2>&1) & done; wait
python3 - <<'P'
import re,json,collections
cl=collections.Counter(); ex={}
for i in range(8):
    o=open(f'/tmp/w/try/o.{i}').read()
    if "CONSUMED" not in o and not globals().get("shown"): shown=1; print('chunk',i,'NOT CONSUMED', '\n'.join([l for l in o.split('\n') if 'rror' in l or 'line ' in l][:6]))
    evs=None
    for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*(\{.*?\})\s*>>',o,re.S):
        if evs is None: evs=[json.loads(x) for x in open(f'/tmp/w/try/t.{i}.ndjson')]
        e=evs[int(m[1])-1]
        k=(e['op'],re.sub(r'\s+',' ',m[2]),e.get('msg','')[:70],e.get('in',''))
        cl[k]+=1
        if k not in ex: ex[k]=(i,int(m[1]))
    print(i,re.findall(r'CONSUMED", (\d+), (\d+), (\d+)',o), end=' ')
print()
for k,n in cl.most_common(60): print(n,k,ex[k])
P
