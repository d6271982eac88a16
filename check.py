#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] | check.py --replay FILE

Decides one property: checks the specification itself with TLC (small
constants, exhaustive), derives behaviours from it, executes them and random
histories on the real library in /repo, and checks the recorded executions
against the specification with TLC.

exit 0  the property held on everything explored
exit 1  VIOLATION lines: a recorded execution of the real code breaks it
exit 2  the check itself could not be completed
"""
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
from registry import PROPS, UNITS  # noqa: E402

GOENV = dict(os.environ, HOME="/root", GOROOT="/opt/veriftools/go1.24.13",
             PATH="/opt/veriftools/go1.24.13/bin:" + os.environ.get("PATH", ""),
             GOTOOLCHAIN="local", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"),
             GOWORK="off", GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off")


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def build(out):
    r = subprocess.run(["go", "build", "-o", out, "./cmd/driver"], cwd=HERE + "/harness",
                       env=GOENV, capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("building the driver failed:\n" + r.stderr[-4000:])


def tlc(specdir, module, cfg, args, env=None, heap="3g", timeout=840, gc="-XX:+UseSerialGC"):
    meta = tempfile.mkdtemp(dir=specdir)
    cmd = ["java", gc, "-Xmx" + heap, "-Xss256m", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", meta, "-config", cfg] + args + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=specdir, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def design(specdir, module, cfg, tier):
    """Exhaustive check of the specification with small constants."""
    c = cfg
    if tier == "thorough" and os.path.exists("%s/%s" % (specdir, cfg.replace(".cfg", "_thorough.cfg"))):
        c = cfg.replace(".cfg", "_thorough.cfg")
    t = time.time()
    rc, out = tlc(specdir, module, c, ["-workers", "4", "-lncheck", "final"], heap="6g", gc="-XX:+UseParallelGC",
                  timeout=400 if tier == "quick" else 3600)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("the specification itself fails TLC (%s %s):\n%s" % (module, c, out[-3000:]))
    gen, dist = stats(out)
    return {"module": module, "cfg": c, "transitions": gen, "states": dist, "wall_s": round(time.time() - t, 1)}


def scripts(specdir, module, cfg, num, depth, seed):
    """Random behaviours of the specification, as scripts for the driver."""
    rc, out = tlc(specdir, module, cfg, ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)],
                  heap="2g", timeout=400)
    if rc != 0:
        raise CheckError("simulating %s failed:\n%s" % (module, out[-3000:]))
    seen, res = set(), []
    for line in out.splitlines():
        if line.startswith('"SCRIPT '):
            s = json.loads(json.loads(line)[7:])
            key = json.dumps(s[:-1])
            if key not in seen:
                seen.add(key)
                res.append(s)
    random.Random(seed).shuffle(res)
    return res


def validate(specdir, module, trace, focus):
    env = {"TRACE": trace, "FOCUS": focus}
    rc, out = tlc(specdir, module, "Trace.cfg", ["-workers", "1"], env=env, heap="2600m", timeout=840)
    fails = []
    # PrintT wraps long values over several lines
    for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S):
        fails.append((int(m.group(1)), sorted(re.findall(r'"([^"]*)"', m.group(2)))))
    m = re.search(r'<<\s*"CONSUMED",\s*(\d+),\s*(\d+),\s*(\d+)\s*>>', out)
    err = None
    d = re.search(r"The depth of the complete state graph search is (\d+)", out)
    if rc != 0 and not m and d and re.search(r"Attempted to|In evaluation|The following expression|evaluating the expression|was violated|not in the domain", out):
        # the specification has no value for what was recorded: the step is not one of its behaviours
        fails.append((int(d.group(1)), ["step-of-the-specification"]))
        return {"fails": fails, "err": None, "events": int(d.group(1)), "trace": trace}
    if rc != 0 or not m or m.group(1) != m.group(2):
        err = "trace validation did not complete (%s, %s):\n%s" % (module, trace, out[-3000:])
    return {"fails": fails, "err": err, "events": int(m.group(2)) if m else 0, "trace": trace}


def known_findings():
    """Lines `finding: property=<id> unit=<unit> op=<op> clause=<clause> [match=<field>:<value>,...] <text>`."""
    res = []
    p = HERE + "/known-findings.txt"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            m = re.match(r"finding:\s+property=(\S+)\s+unit=(\S+)\s+op=(\S+)\s+clause=(\S+)\s+match=(\S+)\s+(.*)", line)
            if not m:
                raise CheckError("malformed known-findings line: " + line)
            match = [kv.split(":", 1) for kv in m.group(5).split(",")] if m.group(5) != "-" else []
            res.append(dict(property=m.group(1), unit=m.group(2), op=m.group(3), clause=m.group(4), match=match, text=m.group(6)))
    return res


def is_known(kf, prop, unit, ev, clause):
    for k in kf:
        if k["property"] == prop and k["unit"] == unit and k["op"] == ev.get("op") and k["clause"] == clause and \
                all(str(ev.get(f)) == v for f, v in k["match"]):
            return k
    return None


def run_unit(prop, uname, tier, seed, work, driver, only=None):
    u = UNITS[uname]
    sd = work + "/spec"
    res = {"design": [], "scripts": 0}
    futs = []
    with ThreadPoolExecutor(4) as ex:
        if only is None and prop not in u.get("nomc", ()):
            futs = [ex.submit(design, sd, m, c, tier) for m, c in u.get("mc", [])]
        sim = u.get("sim")
        sf = None
        if sim and (prop not in u.get("nosim", ())):
            num = sim["num"] if tier == "quick" else sim.get("num_thorough", sim["num"] * 8)
            sf = ex.submit(scripts, sd, sim["module"], sim["cfg"], num, sim["depth"], seed)
        scr = sf.result() if sf else []
        spath = ""
        if scr:
            spath = "%s/%s.scripts" % (work, uname)
            with open(spath, "w") as f:
                for s in scr:
                    f.write(json.dumps(s) + "\n")
            res["scripts"] = len(scr)
            res["script_sample"] = scr[0]
        nchunks = 8 if tier == "quick" else 48
        if only is not None:
            nchunks = 1
        pre = "%s/%s.trace" % (work, uname)
        cmd = [driver, "-fam", u["fam"], "-focus", prop, "-tier", tier, "-seed", str(seed), "-out", pre,
               "-chunks", str(nchunks), "-scripts", spath]
        if only is not None:
            cmd += ["-only", str(only)]
        env = dict(os.environ, GODEBUG="randautoseed=0", GOMEMLIMIT="8GiB")
        t = time.time()
        r = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=800 if tier == "quick" else 7200)
        if r.returncode != 0:
            raise CheckError("driver failed (%d): %s" % (r.returncode, r.stderr[-3000:]))
        res["driver"] = json.loads(r.stdout.strip().splitlines()[-1])
        res["driver"]["wall_s"] = round(time.time() - t, 1)
        res["driver_err"] = r.stderr[-2000:]
        t = time.time()
        traces = sorted(p for p in glob.glob(pre + ".*.ndjson") if os.path.getsize(p) > 0)
        with ThreadPoolExecutor(8) as ex:
            vs = list(ex.map(lambda p: validate(sd, u["trace"], p, prop), traces))
        res["design"] = [f.result() for f in futs]
    res["validate_wall_s"] = round(time.time() - t, 1)
    res["validations"] = vs
    return res


def load(path):
    with open(path) as f:
        return f.readlines()


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    pos = []
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = json.load(open(args.pop(0)))
        else:
            pos.append(a)
    only = None
    if replay:
        pos = [replay["property"]]
        tier, seed, only = replay["tier"], replay["seed"], replay["scenario"]
    prop = pos[0]
    spec = PROPS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    violations, known, errors = [], {}, []
    units = {}
    try:
        shutil.copytree(HERE + "/spec", work + "/spec")
        driver = work + "/driver"
        build(driver)
        kf = known_findings()
        unames = spec["units"] if not replay else [replay["unit"]]
        for uname in unames:
            try:
                res = run_unit(prop, uname, tier, seed, work, driver, only)
            except CheckError as e:
                errors.append("%s: %s" % (uname, e))
                continue
            if not replay and uname == unames[0]:
                try:
                    res["design"] += [design(work + "/spec", m, c, tier) for m, c in spec.get("mc", [])]
                except CheckError as e:
                    errors.append(str(e))
            if res["driver"].get("aborted"):
                errors.append("%s: %d scenarios aborted in the harness: %s" % (uname, res["driver"]["aborted"], res["driver_err"]))
            for v in res["validations"]:
                if v["err"]:
                    errors.append(v["err"])
                if not v["fails"]:
                    continue
                lines = load(v["trace"])
                for pos_, clauses in v["fails"]:
                    ev = json.loads(lines[pos_ - 1])
                    unk = []
                    for c in clauses:
                        k = is_known(kf, prop, uname, ev, c)
                        if k:
                            known[k["text"]] = known.get(k["text"], 0) + 1
                        else:
                            unk.append(c)
                    if unk:
                        b = pos_ - 1
                        while b > 0 and json.loads(lines[b])["op"] != "begin":
                            b -= 1
                        violations.append({"unit": uname, "op": ev.get("op"), "in": ev.get("in"), "clauses": unk, "scenario": ev["sc"],
                                           "events": [json.loads(x) for x in lines[b:pos_]]})
            units[uname] = res
        os.makedirs(HERE + "/evidence", exist_ok=True)
        shown = 0
        sigs = set()
        for v in violations:
            sig = (v["unit"], v["op"], tuple(v["clauses"]))
            if sig in sigs:
                continue
            sigs.add(sig)
            if shown >= 10:
                continue
            shown += 1
            os.makedirs(HERE + "/replays", exist_ok=True)
            rp = "%s/replays/%s-%d.json" % (HERE, prop, shown)
            last = v["events"][-1]
            json.dump({"property": prop, "unit": v["unit"], "tier": tier, "seed": seed, "scenario": v["scenario"],
                       "clauses": v["clauses"], "event": last, "events": v["events"]}, open(rp, "w"), indent=1)
            log("  broken: %s in unit %s, op %s%s, scenario %d %s" % (",".join(v["clauses"]), v["unit"], v["op"],
                ":" + str(v["in"]) if v["in"] else "", v["scenario"], (last.get("msg") or "") + " " + (last.get("stack") or "")))
            log("VIOLATION property=%s replay=%s" % (prop, rp))
        for k in kf:
            if k["property"] == prop and not replay:
                log("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
        if not replay:
            evidence(prop, tier, seed, spec, units, len(violations), errors, time.time() - t0, work)
        for e in errors:
            log("ERROR: " + e)
        ev = sum(x["driver"]["events"] for x in units.values())
        log("%s %s: %d events validated in %d scenarios, %d violations, %.1fs" % (
            prop, tier, ev, sum(x["driver"]["scenarios"] for x in units.values()), len(violations), time.time() - t0))
        if violations:
            sys.exit(1)
        if errors:
            sys.exit(2)
        sys.exit(0)
    except CheckError as e:
        log("ERROR: %s" % e)
        sys.exit(2)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def op_counts(path, acc):
    for line in open(path):
        m = re.search(r'"op":"([a-z0-9A-Z_]+)"', line)
        if m:
            acc[m.group(1)] = acc.get(m.group(1), 0) + 1


def evidence(prop, tier, seed, spec, units, nviol, errors, wall, work):
    states = transitions = traces = events = nscripts = 0
    samples, ops, designs = [], {}, []
    for uname, r in units.items():
        for d in r["design"]:
            states += d["states"]
            transitions += d["transitions"]
            designs.append(d)
        traces += r["driver"]["scenarios"]
        events += r["driver"]["events"]
        nscripts += r["scripts"]
        acc = {}
        for v in r["validations"]:
            op_counts(v["trace"], acc)
        ops[uname] = acc
        if r.get("script_sample"):
            samples.append({"unit": uname, "script": r["script_sample"]})
        if r["validations"]:
            ls = load(r["validations"][0]["trace"])[:6]
            samples.append({"unit": uname, "trace_prefix": [x[:600] for x in ls]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": {
              "states": states, "transitions": transitions, "traces_validated_against_impl": traces,
              "events_validated": events, "scripts_from_spec": nscripts,
              "design_checks": designs, "calls_by_unit": ops, "samples": samples,
              "rule": "a trace is one scenario of library calls; every call is one event whose outcome and projected state TLC judged against the specification"},
          "assumptions": spec.get("assumptions", []) + [
              "the projection in /verif/harness reports the library's state faithfully",
              "hashes and floats are compared by rank; TLC, the Go toolchain and the JVM are trusted"],
          "wall_s": round(wall, 1), "violations": nviol}
    if spec.get("level") in ("fault_enumeration", "exploration"):
        ev["coverage"]["evaluations"] = events
        ev["coverage"]["distinct_nontrivial"] = traces
    if errors:
        ev["coverage"]["errors"] = [e[:500] for e in errors]
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)


if __name__ == "__main__":
    main()
