#!/usr/bin/env python3
"""Mutation campaign: mut.py FAMILY N SEED [slot]. Keeps mutants the repository's tests let through and tells which are caught."""
import sys, os, json, random, subprocess, re, glob, shutil, time
sys.path.insert(0, "/verif")
from registry import PROPS, UNITS
PK = {"theta": ["theta"], "tuple": ["tuple"], "hll": ["hll"], "cpc": ["cpc"], "kll": ["kll"], "req": ["req"], "tdig": ["tdigest"],
      "freq": ["frequencies"], "cms": ["count"], "bloom": ["filters"], "resv": ["sampling:reservoir"], "vopt": ["sampling:varopt"], "int": ["internal", "internal/binomialbounds", "internal/quantiles", "common"]}
SKIP = re.compile(r"validation|test_util|runtime_asserts|_data\.go|testing\.go|characterization|cubic|composite_interp|relative_error_tables|coefficient|bit_packing|cpc_wrapper$")
fam, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
slot = sys.argv[4] if len(sys.argv) > 4 else fam
only = os.environ.get("FILES", "")
R = "/tmp/w/mut/" + slot
os.makedirs(R, exist_ok=True)
repo = R + "/repo"
V = R + "/verif"  # the committed machinery
subprocess.run("rm -rf %s; git clone -q /verif %s" % (V, V), shell=True, check=True)
if not os.path.exists(repo):
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
subprocess.run("git fetch -q origin; git reset -q --hard origin/HEAD", shell=True, cwd=repo, check=True)
env = dict(os.environ)
for l in open("/verif/dev/env.sh"):
    for kv in l.replace("export ", "").split():
        k, v = kv.split("=", 1)
        env[k] = v.replace("$PATH", os.environ["PATH"])
env.update(GOFLAGS="-mod=mod", GODEBUG="randautoseed=0")
if not os.path.exists("/tmp/w/mut/mut"):
    os.makedirs("/tmp/w/mut", exist_ok=True)
    subprocess.run(["go", "build", "-o", "/tmp/w/mut/mut", "/verif/dev/mut/main.go"], env=dict(env, GO111MODULE="off"), check=True)
os.makedirs(R + "/mod", exist_ok=True)
open(R + "/mod/go.mod", "w").write(open("/verif/harness/go.mod").read().replace("=> /repo", "=> " + repo))
shutil.copy("/verif/harness/go.sum", R + "/mod/go.sum")
files = []
for p in PK[fam]:
    d, _, pre = p.partition(":")
    files += [f for f in glob.glob("%s/%s/%s*.go" % (repo, d, pre)) if not f.endswith("_test.go") and not SKIP.search(f)]
if only:
    files = [f for f in files if re.search(only, f)]
muts = []
for f in files:
    for l in subprocess.run(["/tmp/w/mut/mut", f], capture_output=True, text=True, errors="replace").stdout.splitlines():
        m = json.loads(l); m["f"] = f; muts.append(m)
random.Random(seed).shuffle(muts)
pkgs = sorted({"./" + p.partition(":")[0] + "/..." for p in PK[fam]}) if fam != "int" else ["./..."]
props = os.environ.get("PROPS", "").split() or {"int": []}.get(fam, [p for p in PROPS if fam in PROPS[p]["units"]])
if fam in ("theta", "tuple", "hll", "cpc", "kll", "req", "tdig", "freq", "cms", "bloom", "resv", "vopt") and "PROPS" not in os.environ:
    props += ["C29", "C31", "C32"]
props.sort(key=lambda p: p in ("C28", "C29", "C30", "C31", "C32"))
print(len(muts), "mutants of", len(files), "files; props", props, flush=True)

def sh(cmd, cwd, timeout, **kw):
    try:
        return subprocess.run(cmd, cwd=cwd, env=dict(env, **kw.pop("env", {})), capture_output=True, text=True, errors="replace", timeout=timeout, **kw).returncode
    except subprocess.TimeoutExpired:
        return 124

done = killed = caught = 0
t0 = time.time()
for m in muts:
    if caught + done - killed >= 10**9 or done >= n:
        break
    rel = os.path.relpath(m["f"], repo)
    src = open(m["f"]).read() if False else open(m["f"], "rb").read()
    new = src[:m["Off"]] + m["New"].encode() + src[m["End"]:]
    open(m["f"], "wb").write(new)
    try:
        if sh(["go", "build", "./..."], repo, 200) != 0:
            continue
        if sh(["go", "test", "-vet=off", "-timeout", "120s"] + pkgs, repo, 200) != 0:
            killed += 1
            continue
        done += 1
        res = "MISSED"
        if sh(["go", "build", "-modfile=" + R + "/mod/go.mod", "-o", R + "/driver", "./cmd/driver"], V + "/harness", 200) != 0:
            continue
        tried = []
        for p in props:
            us = [fam] if fam in PROPS[p]["units"] else PROPS[p]["units"]
            for u in us:
                for x in glob.glob(R + "/t.*"): os.remove(x)
                rc = sh([R + "/driver", "-fam", UNITS[u]["fam"], "-focus", p, "-tier", "quick", "-seed", "1", "-out", R + "/t", "-chunks", "4", "-scripts", ""], R, 300)
                if rc != 0:
                    res = "caught %s driver rc %d" % (p, rc); break
                ps = [(x, subprocess.Popen(["bash", "-c", "VERIF=" + V + " timeout 400 /verif/dev/tlctrace.sh %s %s %s 2>&1" % (UNITS[u]["trace"], x, p)], stdout=open(x + ".out", "w"), env=env))
                      for x in glob.glob(R + "/t.*.ndjson") if os.path.getsize(x) > 0]
                for x, q in ps: q.wait()
                for x, q in ps:
                    o = open(x + ".out").read()
                    f = re.search(r'<<\s*"FAIL",\s*(\d+),\s*\{(.*?)\}\s*>>', o, re.S)
                    if f:
                        res = "caught %s %s" % (p, " ".join(f[2].split())); break
                    if "CONSUMED" not in o:
                        res = "caught %s (not consumed)" % p; break
                if res != "MISSED": break
            if res != "MISSED": break
        if res != "MISSED": caught += 1
        print("%s | %s:%d | %s" % (res, rel, m["Line"], m["Desc"].replace("\n", " ")[:150]), flush=True)
    finally:
        open(m["f"], "wb").write(src)
print("survivors %d caught %d killed by tests %d in %ds" % (done, caught, killed, time.time() - t0))
