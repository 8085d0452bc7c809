#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /verif/properties.jsonl on /repo's current tree.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: nothing could be decided."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time, threading
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("XT_REPO", "/repo")
FLAGS = ["-std=c++17", "-O1", "-g1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG", "-DXTYPES_EXCEPTIONS", "-I" + REPO + "/include", "-I" + HERE + "/rt"]
VENV = "/opt/veriftools/pyvenv/bin/python3"

def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace")

def known_findings(prop):
    out = []
    try:
        for l in open(HERE + "/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    except FileNotFoundError: pass
    return out

def bounded(prop, seed, tier, work, res):
    """the bounded stand-in: the suite of the property, run natively against the real headers"""
    t = time.time()
    exe = work + "/suite"
    jobs = []
    for src in ("main", prop.lower()):
        jobs.append(subprocess.Popen(["g++", *FLAGS, "-c", f"{HERE}/rt/{src}.cpp", "-o", f"{work}/{src}.o"], stdout=open(f"{work}/{src}.log", "w"), stderr=subprocess.STDOUT))
    ok = all([j.wait() == 0 for j in jobs])
    if ok:
        rc, out = sh(["g++", "-fsanitize=address", f"{work}/main.o", f"{work}/{prop.lower()}.o", "-o", exe], 120)
        ok = rc == 0
    if not ok:
        res["error"] = "the suite does not compile against the current tree: " + open(f"{work}/{prop.lower()}.log").read()[:3000]
        return
    res["compile_s"] = round(time.time() - t, 1)
    limit = 330 if tier == "quick" else 650
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
    t = time.time()
    rc, out = sh([exe, prop, str(seed), tier, "--limit", str(limit)], limit + 60, env=env, cwd=work)
    res["run_s"] = round(time.time() - t, 1)
    m = re.search(r"SUMMARY cases=(\d+) done=(\d+) evaluations=(\d+) distinct=(\d+) fails=(\d+) cut=(\d+)", out)
    if not m:
        res["error"] = "the suite ended without a summary: " + out[-2000:]
        return
    res.update(cases=int(m[1]), done=int(m[2]), evaluations=int(m[3]), distinct=int(m[4]), cut=int(m[6]))
    res["samples"] = re.findall(r"^SAMPLE (.*)$", out, re.M)
    res["fails"] = []
    for l in re.findall(r"^FAIL (.*)$", out, re.M):
        f = re.match(r"(\d+) (.*?) :: (.*)", l)
        res["fails"].append({"case": int(f[1]), "name": f[2], "what": f[3]})
    if res["done"] == 0: res["error"] = "the suite ran no case"

def deductive(prop, seed, tier, work, res):
    """the contracts: obligations generated from the current tree and discharged by SMT (dv/)"""
    if not glob.glob(HERE + "/dv/" + prop.lower() + "*.cpp"): return
    budget = 600 if tier == "quick" else 780
    rc, out = sh([VENV, HERE + "/dv/run.py", prop, tier, work, str(budget)], budget + 60, env=dict(os.environ, XT_REPO=REPO))
    try: res.update(json.load(open(work + "/dv.json")))
    except Exception: res["error"] = "the verifier gave no answer: " + out[-1500:]

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(HERE + "/evidence", exist_ok=True)
    ev = f"{HERE}/evidence/{prop}.json"
    for f in glob.glob(f"{HERE}/evidence/{prop}*"): os.remove(f)
    meta = json.load(open(HERE + "/tools/checks.json"))[prop]
    work = tempfile.mkdtemp(prefix=f"xt-{prop}-")
    bres, dres = {}, {}
    try:
        th = [threading.Thread(target=f, args=(prop, seed, tier, work, r)) for f, r in ((bounded, bres), (deductive, dres))]
        for t in th: t.start()
        for t in th: t.join()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = known_findings(prop)
    obligations = dres.get("obligations", [])
    failed_obl = [o for o in obligations if o["status"] == "failed"]
    viol, used = [], []
    for f in bres.get("fails", []):
        k = [x for x in known if x[0] == "case:" + f["name"]]
        if k: used.append(k[0]); continue
        viol.append(("input", f))
    for o in failed_obl:
        k = [x for x in known if x[0] == "obligation:" + o["name"]]
        if k: used.append(k[0]); continue
        viol.append(("obligation", o))
    for k in known: print(f"KNOWN-FINDING: property={prop} {k[1]}")
    proved = [o for o in obligations if o["status"] == "proved"]
    undecided = [o for o in obligations if o["status"] == "undecided"]
    level = meta["level"]
    cov = {}
    if bres.get("cases") is not None:
        cov.update({"evaluations": bres["evaluations"], "distinct_nontrivial": bres["distinct"],
                    "rule": "bounded stand-in: " + meta["rule"] + " A case is one generated history or pair; it counts as distinct and non-trivial when its name (type, seed, shape) is new in this run and at least one condition was evaluated in it.",
                    "samples": bres["samples"] or ["none"], "bounded_cases": bres["cases"], "bounded_cases_completed": bres["done"], "bounded_cut_by_time_limit": bool(bres["cut"])})
    if dres:
        cov.update({"obligations": len(obligations), "discharged": len(proved),
                    "checker_cmd": f"python3 dv/run.py {prop} {tier} WORKDIR (z3 {dres.get('z3', '?')})",
                    "trusted_base": dres.get("trusted", []) or ["none recorded"],
                    "undecided_obligations": [f"{o['name']}: {o.get('why', '')}" for o in undecided],
                    "functions_under_contract": dres.get("contracts", []),
                    "functions_verified_from_source": dres.get("functions", []),
                    "obligation_backends": dres.get("backends", {}), "solver_seconds": dres.get("solver_s", 0),
                    "vacuity_checks": dres.get("vacuity", {}), "verifier_error": dres.get("error", "")})
        cov.setdefault("samples", []).extend({"obligation": o["name"], "status": o["status"], "queries": o.get("queries", 0), "seconds": o.get("s", 0)} for o in obligations[:6])
    for k, v in (("bounded_error", bres.get("error")),):
        if v: cov[k] = v
    cov["explanation"] = meta["note"]
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
               "assumptions": meta.get("assumptions", []) + dres.get("assumptions", []),
               "wall_s": round(time.time() - t0, 1), "violations": len(viol)}, open(ev, "w"), indent=1)
    if viol:
        replay = f"{HERE}/evidence/{prop}-replay.txt"
        inputs = [v for k, v in viol if k == "input"]
        obls = [v for k, v in viol if k == "obligation"]
        replayed = [o for o in obls if o.get("replayed")]
        with open(replay, "w") as f:
            f.write(f"property {prop} is violated by the code in {REPO}\n")
            for o in obls:
                f.write(f"\nfailed obligation: {o['name']}\n  {o.get('why', '')}\n" + (f"  replay on the real code: {o['replayed']}\n" if o.get("replayed") else ""))
            for v in inputs: f.write(f"\nfailing input (case {v['case']}, {v['name']}, seed {seed}, tier {tier}):\n  {v['what']}\n")
            if inputs:
                f.write(f"\nto replay: g++ {' '.join(FLAGS)} {HERE}/rt/main.cpp {HERE}/rt/{prop.lower()}.cpp -o /tmp/suite && ASAN_OPTIONS=detect_leaks=0 /tmp/suite {prop} {seed} {tier} --case {inputs[0]['case']}\n")
        print(open(replay).read()[:3000])
        print(f"VIOLATION property={prop} replay={replay}" + ("" if inputs or replayed else " no-failing-input-found"))
        return 1
    if bres.get("error") and not (obligations and not undecided and not dres.get("error")):
        print("ERROR: " + bres["error"]); return 2
    print(f"{prop}: held; bounded: {bres.get('done')} cases, {bres.get('evaluations')} conditions; contracts: {len(proved)} of {len(obligations)} obligations discharged, {len(undecided)} undecided; {time.time() - t0:.0f} s")
    return 0
sys.exit(main())
