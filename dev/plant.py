#!/usr/bin/env python3
"""plant.py < spec : spec is python assigning ID, PROP, EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO (go main).
Confirms the change in a scratch copy and keeps it in /verif/seeded/ID. plant.py check ID...: runs the property's check on it."""
import json, os, re, shutil, subprocess, sys, time
SC = "/tmp/w/plant"
ENV = dict(os.environ, HOME="/root", GOROOT="/opt/veriftools/go1.24.13", GOTOOLCHAIN="local", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE="/root/.cache/go-build", GOWORK="off", GOFLAGS="-mod=mod", GOPROXY="off", PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"])
DEMOSH = '''#!/bin/bash
# runs main.go as a package of the repository in the current directory
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod \\
    GOCACHE=/root/.cache/go-build GOWORK=off GOFLAGS=-mod=mod GOPROXY=off PATH=/opt/veriftools/go1.24.13/bin:$PATH
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$D" > "$T/o.json"
timeout 250 go run -overlay "$T/o.json" ./zz_demo
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=ENV, **k)
def fresh():
    if not os.path.isdir(SC):
        sh(f"git -C /repo worktree prune; git clone -q /repo {SC}")
    sh(f"git -C {SC} fetch -q && git -C {SC} reset -q --hard $(git -C /repo rev-parse HEAD) && git -C {SC} clean -fdq")
def plant(text):
    g = {}
    exec(text, g)
    id, d = g["ID"], "/verif/seeded/" + g["ID"]
    fresh()
    for f, old, new in g["EDITS"]:
        p = f"{SC}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return print(id, "OLD TEXT occurs", s.count(old), "times in", f)
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {SC} diff").stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/main.go", "w").write(g["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write(DEMOSH)
    os.chmod(d + "/demo.sh", 0o755)
    def bad(m):
        print(id, "REJECTED:", m)
        shutil.rmtree("/tmp/w/rej", ignore_errors=True)
        shutil.move(d, "/tmp/w/rej")
    r = sh(f"cd {SC} && go build ./... && gofmt -l .")
    if r.returncode: return bad("build: " + r.stderr[-800:])
    r = sh(f"cd {SC} && {d}/demo.sh")
    if r.returncode == 0: return bad("demo passes with the change")
    if "zz_demo/main.go" in r.stderr and "panic" not in r.stderr: return bad("demo does not compile: " + r.stderr[-800:])
    demo = (r.stdout + r.stderr)[-300:]
    r = sh(f"cd {SC} && git stash -q && {d}/demo.sh; x=$?; git stash pop -q; exit $x")
    if r.returncode: return bad("demo fails without: " + (r.stdout + r.stderr)[-600:])
    sh(f"cd {SC} && go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/w/plant.log; python3 /opt/vp/results.py /tmp/w/plant.json gojson:/tmp/w/plant.log")
    b, t = json.load(open("/opt/vp/BASELINE.json")), json.load(open("/tmp/w/plant.json"))
    def names(x):
        for k in ("passed", "tests", "stable", "pass"):
            if isinstance(x, dict) and k in x: return set(x[k])
        return set(x)
    m = sorted(names(b) - names(t))
    if m: return bad(f"{len(m)} stable tests fail: {m[:3]}")
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    print(id, "KEPT; demo says:", demo.strip().split("\n")[0])
def check(ids, tier="quick"):
    """Runs the check of the bug's property from a copy of /verif bound to a scratch copy of /repo."""
    vc = "/tmp/w/vcopy"
    for id in ids:
        d = "/verif/seeded/" + id
        prop = os.environ.get("AS") or json.load(open(d + "/meta.json"))["property"]
        fresh()
        r = sh(f"git -C {SC} apply {d}/patch.diff")
        if r.returncode: print(id, "DOES NOT APPLY"); continue
        shutil.rmtree(vc, ignore_errors=True)
        sh(f"mkdir -p {vc} && cd /verif && cp -r *.py *.txt spec harness {vc}/ && sed -i 's#=> /repo#=> {SC}#' {vc}/harness/go.mod")
        t = time.time()
        r = sh(f"cd {vc} && python3 check.py {prop} --tier {tier} --seed {os.environ.get('SEED', '1')}")
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        print(id, prop, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", " | ".join(l[:150] for l in r.stdout.split("\n") if "broken" in l)[:300] , r.stderr[-200:] + r.stdout[-300:] if r.returncode not in (0, 1) else "", flush=True)
if len(sys.argv) > 1 and sys.argv[1] == "check":
    ids = sys.argv[2:] or sorted(os.listdir("/verif/seeded"))
    check(ids)
else:
    for part in sys.stdin.read().split("\n#---\n"):
        if part.strip(): plant(part)
