#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--repo DIR] [-j N]
Decides one property of Boost.Intrusive by static analysis of the headers in /repo (nothing of the library is executed).
exit 0: held on everything decided; exit 1 + VIOLATION line: broken; exit 2: the analysis itself could not be carried out."""
import sys, os, json, time, re, subprocess, tempfile, shutil, argparse
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import plan

def die(msg):
    print("ERROR: " + msg, flush=True); sys.exit(2)

class Ctx: pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def ensure_analyzer():
    r = run([VERIF + "/analyzer/build.sh"])
    if r.returncode: die("analyzer does not build: " + r.stderr[-1500:])

def shape(ctx, job):
    """abstract interpretation of the specification functions of one driver"""
    drv, rx = job["driver"], job["specs"]
    bc = os.path.join(ctx.tmp, drv + ".bc")
    if not os.path.exists(bc):
        r = run([VERIF + "/drivers/compile.sh", VERIF + "/drivers/%s.cpp" % drv, bc], env=dict(os.environ, VF_REPO=ctx.repo))
        if r.returncode: die("driver %s does not compile against the headers:\n%s" % (drv, r.stderr[:3000]))
    l = run([VERIF + "/build/vfa", bc, "-f", rx, "--list"])
    specs = l.stdout.split()
    if len(specs) < job["min"]: die("%s: only %d obligations match %s, expected at least %d" % (drv, len(specs), rx, job["min"]))
    cats = job["cats"]
    secs = job.get("secs", 25) * (1 if ctx.tier == "quick" else 6)
    maxstates = job.get("maxstates", 400000) * (1 if ctx.tier == "quick" else 10)
    heavy = re.compile(job.get("heavy", "$^"))
    order = sorted(specs, key=lambda s: (0 if heavy.fullmatch(s) else 1))
    batches, cur = [], []
    for s in order:
        if heavy.fullmatch(s): batches.append([s]); continue
        cur.append(s)
        if len(cur) == 4: batches.append(cur); cur = []
    if cur: batches.append(cur)
    out = []
    zero = {"checks": 0, "states": 0, "abstract_states": 0, "ends": 0, "loops": 0, "heap_reads": 0, "heap_writes": 0, "secs": 0}
    def real(r):
        return any((cats is None or v["cat"] in cats) and not any(re.fullmatch(k["match"]["spec"], r["spec"]) for k in ctx.known) for v in r["violations"])
    def shard(i):
        b = batches[i]
        left = ctx.deadline - time.time()
        if left < 5 or ctx.stop:
            return [dict(zero, spec=s, violations=[], undecided=["not analysed: " + ("a violation was already found" if ctx.stop else "time budget of the check exhausted")]) for s in b]
        f = os.path.join(ctx.tmp, "%s.%d.%d" % (drv, id(job), i))
        with open(f, "w") as h: h.write("\n".join(b) + "\n")
        t = max(2, min(secs, left / len(b)))
        cmd = [VERIF + "/build/vfa", bc, "-F", f, "-t", str(t), "-n", str(maxstates)]
        if not any(k for k in ctx.known): cmd += ["-x", "*" if cats is None else ",".join(sorted(cats))]
        r = run(cmd)
        res = [json.loads(x) for x in r.stdout.splitlines() if x.startswith("{")]
        if r.returncode not in (0, 1):
            done = {x["spec"] for x in res}
            for s in b:
                if s not in done: res.append(dict(zero, spec=s, violations=[], undecided=["analyzer ended early: " + r.stderr[-200:]]))
        if ctx.tier == "quick" and any(real(x) for x in res): ctx.stop = True
        return res
    with ThreadPoolExecutor(ctx.jobs) as ex:
        for r in ex.map(shard, range(len(batches))): out += r
    for r in out:
        r["driver"] = drv
        r["violations"] = [v for v in r["violations"] if cats is None or v["cat"] in cats]
        if not r["violations"] and not r["undecided"] and r["ends"] + r.get("expected_asserts", 0) == 0:
            r["undecided"] = ["no execution path of the specification reaches its end"]
    ctx.results += out
    return out

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--repo", default=os.environ.get("VF_REPO", "/repo")); ap.add_argument("-j", type=int, default=os.cpu_count() or 4)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    ctx = Ctx(); ctx.repo = a.repo; ctx.tier = a.tier if a.tier in ("quick", "thorough") else "quick"; ctx.jobs = a.j; ctx.results = []; ctx.extra = {}
    if a.prop not in plan.PLAN: die("no plan for " + a.prop)
    t0 = time.time()
    ctx.deadline = t0 + (720 if ctx.tier == "quick" else 7200); ctx.stop = False
    ctx.known = [k for k in load_known() if k["property"] == a.prop and k["status"] == "known"]
    ctx.tmp = tempfile.mkdtemp(prefix="vf_")
    try:
        ensure_analyzer()
        pl = plan.PLAN[a.prop]
        for job in pl["jobs"]:
            if job["type"] == "shape": shape(ctx, job)
            else:
                import importlib
                importlib.import_module(job["type"]).run_job(ctx, job)
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    known = ctx.known
    viols, undec, hit = [], [], {}
    discharged = 0
    for r in ctx.results:
        bad = []
        for v in r["violations"]:
            k = next((k for k in known if re.fullmatch(k["match"]["spec"], r["spec"]) and v["cat"] == k["match"]["cat"] and k["match"].get("msg", "") in v["msg"]), None)
            if k: hit[k["text"]] = k
            else: bad.append(v)
        if bad: viols.append((r, bad))
        elif r["undecided"]: undec.append(r)
        elif not r["violations"]: discharged += 1
    for t in hit: print("KNOWN-FINDING: property=%s %s" % (a.prop, t))
    ev_dir = os.path.join(VERIF, "evidence"); os.makedirs(ev_dir, exist_ok=True)
    sm = lambda k: sum(r.get(k, 0) for r in ctx.results)
    cov = {"obligations": len(ctx.results), "discharged": discharged, "checker_cmd": "bin/check.py %s --tier %s" % (a.prop, ctx.tier),
           "trusted_base": pl.get("trusted", plan.TRUSTED), "rule": pl["rule"],
           "explanation": pl["rule"],
           "undecided": [{"obligation": r["spec"], "why": r["undecided"][:2]} for r in undec],
           "symbolic_states": sm("states"), "loop_head_summaries": sm("abstract_states"), "loops": sm("loops"), "paths_to_end": sm("ends"), "structure_checks": sm("checks"), "heap_reads": sm("heap_reads"), "heap_writes": sm("heap_writes"),
           "samples": [{"obligation": r["spec"], "states": r.get("states"), "checks": r.get("checks")} for r in ctx.results[:3]]}
    cov.update(ctx.extra)
    ev = {"property": a.prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": pl["level"], "coverage": cov, "assumptions": pl.get("assumptions", plan.ASSUMPTIONS), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    rp = os.path.join(ev_dir, a.prop + ".replay.txt")
    if os.path.exists(rp): os.unlink(rp)
    json.dump(ev, open(os.path.join(ev_dir, a.prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated, %.1f s" % (a.prop, len(ctx.results), discharged, len(undec), len(viols), time.time() - t0))
    for r in undec: print("UNDECIDED %s: %s" % (r["spec"], r["undecided"][0][:200]))
    if viols:
        with open(rp, "w") as h:
            h.write("property %s is violated; reproduce with: bin/check.py %s --tier %s\n" % (a.prop, a.prop, ctx.tier))
            for r, bad in viols:
                h.write("\n== obligation %s (drivers/%s)\n" % (r["spec"], r.get("driver", "")))
                for v in bad:
                    h.write("  [%s] %s\n     at %s\n" % (v["cat"], v["msg"], v["loc"]))
                    for t in v.get("trace", []): h.write("       path: %s\n" % t)
        r, bad = viols[0]
        print("  first: %s [%s] %s at %s" % (r["spec"], bad[0]["cat"], bad[0]["msg"][:300], bad[0]["loc"][:300]))
        if a.v:
            for r, bad in viols: print("  ", r["spec"], bad[0]["cat"], bad[0]["msg"][:200], bad[0]["loc"][:200])
        print("VIOLATION property=%s replay=%s" % (a.prop, rp), flush=True)
        sys.exit(1)
    if ctx.results and discharged < 0.5 * len(ctx.results) and not viols: die("less than half of the obligations could be decided")
    sys.exit(0)
main()
