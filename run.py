#!/usr/bin/env python3
"""Runs the check of one property: run.py <property> [quick|thorough].

1. rebuild the harness against /repo's working tree (hooks on),
2. the harness drives the real code and writes recorded behaviours as JSON (files <Module>.<k>.json),
3. TLC executes the TLA+ module of that name on every file (and the stand-alone models of the property),
4. verdicts printed by the specifications are collected, known findings are set aside, evidence is written.

exit 0: held; 1: VIOLATION; 2: the check itself failed."""
import glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
T0 = time.time()

def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". %s/env.sh; env -0" % V], capture_output=True, env=e).stdout
    return dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)

def die(msg):
    print("CHECK-ERROR:", msg, flush=True)
    sys.exit(2)

def build(e):
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=V + "/harness", env=e, capture_output=True, text=True)
    if p.returncode != 0:
        die("harness build failed\n" + p.stderr[-4000:])

def build_qis(e):
    """the compiler to machine code, as the Python module that it is"""
    e["QIS_LIB"] = V + "/build/qislib/selene_hugr_qis_compiler.so"
    os.makedirs(V + "/build/qislib", exist_ok=True)
    ee = dict(e, CARGO_TARGET_DIR=V + "/build/qis", CARGO_PROFILE_DEV_DEBUG="0")
    repo = os.path.realpath(V + "/../repo")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", repo + "/Cargo.toml", "-p", "selene-hugr-qis-compiler"], env=ee, capture_output=True, text=True)
    if p.returncode != 0:
        die("compiler build failed\n" + p.stderr[-4000:])
    shutil.copy(V + "/build/qis/debug/libselene_hugr_qis_compiler.so", e["QIS_LIB"])

def tlc(job, e, outdir, workers, timeout):
    module, cfg, data, label = job["module"], job["cfg"], job.get("data"), job["label"]
    ee = dict(e)
    if data:
        ee["CASES"] = data
    ee.update(job.get("env", {}))
    meta = os.path.join(outdir, "tlc_" + label)
    jar = "/opt/veriftools/tla/tla2tools.jar"
    cm = [j for j in glob.glob("/opt/veriftools/tla/*.jar") if j != jar]
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx%s" % job.get("mem", "3g"), "-Xss64m", "-cp", ":".join([jar] + cm),
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-cleanup",
           "-config", cfg] + job.get("args", []) + [module + ".tla"]
    t = time.time()
    log = os.path.join(outdir, label + ".log")
    with open(log, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=V + "/spec", env=ee, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = 124
    shutil.rmtree(meta, ignore_errors=True)
    verdicts, states, trans = [], 0, 0
    txt = open(log, errors="replace").read()
    for line in txt.splitlines():
        if line.startswith('"VERDICT '):
            verdicts.append(json.loads(json.loads(line)[len("VERDICT "):]))
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", line.replace(",", "") if "states generated" in line else "")
        m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct", line)
        if m:
            trans, states = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
        m = re.match(r"The number of states generated: ([\d,]+)", line)
        if m:
            trans = states = int(m.group(1).replace(",", ""))
    return dict(job=job, rc=rc, verdicts=verdicts, states=states, trans=trans, log=log, wall=time.time() - t)

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[prop]
    e = env()
    outdir = os.path.join(V, "build", "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(V + "/evidence", exist_ok=True)
    budget = 840 if tier == "quick" else chk.get("thorough_s", 6 * 3600)
    pre = []
    for g in chk.get("generate", []):          # behaviours generated from the specification, replayed by the harness
        job = dict(module=g["module"], cfg=g.get("cfg", g["module"] + ".cfg"), label="gen_" + g.get("name", g["module"]), name=g.get("name", g["module"]), args=g.get("args", {}).get(tier, []) + (["-seed", str(seed)] if g.get("simulate") else []),
                   env={"GEN_" + k: str(v) for k, v in g.get("params", {}).get(tier, {}).items()})
        pre.append(job)
    gens = []
    with ThreadPoolExecutor(4) as ex:
        bf = ex.submit(build, e)
        bq = ex.submit(build_qis, e) if chk.get("qis") else None
        for r in ex.map(lambda j: tlc(j, e, outdir, 2, 400), pre):
            if r["rc"] not in (0,) and not r["job"].get("okrc"):
                die("generator model failed: " + open(r["log"]).read()[-2000:])
            lines = [json.loads(l)[len("GEN "):] for l in open(r["log"], errors="replace") if l.startswith('"GEN ')]
            lines = sorted(set(lines))
            with open(os.path.join(outdir, "gen_%s.json" % r["job"]["name"]), "w") as f:
                f.write("[" + ",".join(lines) + "]")
            gens.append(dict(r, n=len(lines)))
        bf.result()
        if bq:
            bq.result()
    tb = time.time() - T0
    ht = chk.get("harness_s", {}).get(tier, 400 if tier == "quick" else 7200)
    try:
        hrun = subprocess.run([V + "/build/target/debug/harness", prop, tier, str(seed), outdir], env=e, timeout=ht, capture_output=True, text=True)
        hrc, herr = hrun.returncode, hrun.stderr
    except subprocess.TimeoutExpired:
        hrc, herr = "timeout", ""
    violations = []
    if hrc != 0:
        cur = os.path.join(outdir, "current.json")
        if (hrc == "timeout" or (isinstance(hrc, int) and hrc < 0)) and os.path.exists(cur):
            c = json.load(open(cur))
            violations.append(dict(id=c.get("id", "?"), v="crash", detail="the code under test %s on this input" % ("did not return" if hrc == "timeout" else "killed the process with signal %d" % -hrc), info=c))
        else:
            die("harness failed (%s)\n%s" % (hrc, herr[-4000:]))
    th = time.time() - T0 - tb
    jobs = []
    for f in sorted(glob.glob(outdir + "/[A-Z]*.*.json")):
        m = os.path.basename(f).split(".")[0]
        jobs.append(dict(module=m, cfg=m + ".cfg", data=f, label=os.path.basename(f)[:-5]))
    for mm in chk.get("models", []):
        if tier in mm.get("tiers", ("quick", "thorough")):
            jobs.append(dict(module=mm["module"], cfg=mm["cfg"], label="model_" + mm["cfg"].replace(".cfg", ""), model=True, mem=mm.get("mem", "3g"), args=mm.get("args", [])))
    left = max(60, budget - (time.time() - T0))
    par = min(4, max(1, len(jobs)))
    w = max(1, 8 // par)
    with ThreadPoolExecutor(par) as ex:
        rs = list(ex.map(lambda j: tlc(j, e, outdir, w, max(30, budget - (time.time() - T0))), jobs))
    info = json.load(open(outdir + "/info.json")) if os.path.exists(outdir + "/info.json") else {}
    stats = json.load(open(outdir + "/stats.json")) if os.path.exists(outdir + "/stats.json") else {}
    counts, slow = {}, 0
    errs = []
    samples = []
    for r in rs:
        if r["job"].get("model"):
            txt = open(r["log"], errors="replace").read()
            if "Model checking completed. No error has been found." not in txt and not ("-simulate" in r["job"]["args"] and r["rc"] == 0):
                errs.append("model %s: rc %s\n%s" % (r["job"]["cfg"], r["rc"], txt[-1500:]))
            continue
        if r["rc"] != 0:
            errs.append("%s: rc %s\n%s" % (r["job"]["label"], r["rc"], open(r["log"], errors="replace").read()[-2500:]))
        for v in r["verdicts"]:
            k = v["v"]
            if k == "limit" and v.get("side", 1) > 1:
                k = v["v"] = "nonterminating"
            if k in ("bad", "fault", "unsup", "limit") and v.get("side", 2) == 1:
                k = "before-" + k
            counts[k] = counts.get(k, 0) + 1
            if k == "ok":
                pi = v["id"] if v["id"] in info else str(v["id"]).split(".")[0]
                if len(samples) < 3 and pi in info:
                    samples.append(dict(case=v["id"], steps=v.get("steps"), program=info[pi]))
            elif k in ("limit", "before-limit", "skip"):
                pass
            elif k.startswith("before-"):
                # the generated program itself cannot be executed by the specification: a fault of the check
                errs.append("case %s: %s %s" % (v["id"], k, v["detail"]))
            else:
                violations.append(dict(id=v["id"], v=k, detail=v.get("detail"), x=v.get("x"), side=v.get("side"), info=info.get(v["id"], info.get(str(v["id"]).split(".")[0]))))
    known = json.load(open(V + "/known_findings.json")) if os.path.exists(V + "/known_findings.json") else []
    kn = {(k["property"], k["case"]): k for k in known if k.get("status") == "known"}
    seen, new, hit = set(), [], set()
    for v in violations:
        k = kn.get((prop, v["id"]))
        if k and (not k.get("verdict") or k["verdict"] == v["v"]) and k.get("detail", "") in str(v["detail"]):
            hit.add(v["id"])
        elif v["id"] not in seen:
            seen.add(v["id"])
            new.append(v)
    for i in sorted(hit):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kn[(prop, i)]["what"], i), flush=True)
    ncases = len({v["id"] for r in rs for v in r["verdicts"]})
    nver = sum(len(r["verdicts"]) for r in rs)
    cov = dict(states=sum(r["states"] for r in rs) + sum(r["states"] for r in gens), transitions=sum(r["trans"] for r in rs) + sum(r["trans"] for r in gens),
               traces_validated_against_impl=counts.get("ok", 0), programs=ncases, disagreements_checked=nver,
               evaluations=nver, distinct_nontrivial=counts.get("ok", 0), rule=chk.get("rule", "one verdict per case and input assignment; non-trivial: executed to the end by the specification"),
               samples=samples or [dict(note="see coverage.models")], verdicts=counts, harness=stats,
               models={r["job"]["label"]: dict(states=r["states"], transitions=r["trans"], wall_s=round(r["wall"], 1)) for r in rs if r["job"].get("model")},
               spec_generated_behaviours={g["job"]["name"]: dict(n=g["n"], states=g["states"]) for g in gens},
               timing=dict(build=round(tb, 1), harness=round(th, 1), tlc=round(time.time() - T0 - tb - th, 1)))
    ev = dict(property=prop, tier=tier, seed=seed, level=chk["level"], coverage=cov, assumptions=chk.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=len(new))
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    for k, v in enumerate(new[:400]):
        p = os.path.join(outdir, "violation_%s.json" % re.sub(r"[^A-Za-z0-9_.-]", "_", str(v["id"])))
        json.dump(v, open(p, "w"), indent=1)
        if k >= 20:
            continue
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  case %s (%s): %s" % (v["id"], v["v"], json.dumps(v["detail"])[:600]), flush=True)
    print("%s %s: %s cases, verdicts %s, %.0fs (build %.0f, harness %.0f)" % (prop, tier, ncases, counts, time.time() - T0, tb, th))
    if new:
        sys.exit(1)
    if errs:
        die("; ".join(errs[:5]))
    if counts.get("ok", 0) == 0 and not any(r["job"].get("model") for r in rs):
        die("nothing was checked")
    if counts.get("limit", 0) + counts.get("before-limit", 0) > nver // 3:
        die("too many cases ran into the step limit")
    sys.exit(0)

main()
