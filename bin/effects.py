"""effect analyses over drivers/ops.cpp (build/eff)"""
import os, subprocess, json, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
def compile(ctx, out, defs):
    return run([VERIF + "/drivers/compile.sh", VERIF + "/drivers/ops.cpp", out] + defs, env=dict(os.environ, VF_REPO=ctx.repo))
class Stop(Exception): pass
def run_job(ctx, job):
    mode, defs = job["mode"], job.get("defs", [])
    bc = os.path.join(ctx.tmp, "ops%d.bc" % len(defs))
    if not os.path.exists(bc):
        r = compile(ctx, bc, defs)
        if r.returncode:
            if job.get("witness"):
                p = compile(ctx, bc, defs + ["-DVF_PERMISSIVE"])
                if p.returncode == 0:
                    msgs = [l for l in r.stderr.splitlines() if "error:" in l][:4]
                    ctx.results.append(dict(spec="type_level_witness", driver="ops", checks=1, ends=1, undecided=[], violations=[dict(cat="copy", msg="a library operation copies, assigns, constructs or destroys a user element: " + "; ".join(msgs)[:400], loc=(re.search(r"(\S+:\d+):\d+: error", r.stderr) or [None, "?"])[1], trace=[l for l in r.stderr.splitlines() if "note: in instantiation" in l][:8])]))
                    return
            raise SystemExit(fail("driver ops.cpp does not compile against the headers:\n" + r.stderr[:2500]))
        elif job.get("witness"):
            ctx.results.append(dict(spec="type_level_witness", driver="ops", checks=1, ends=1, undecided=[], violations=[]))
    l = run([VERIF + "/build/eff", bc, "--list"])
    fl = job.get("flag")
    ops = [o for o in l.stdout.split() if not fl or fl in o[3:].split("__")[0]]
    if len(ops) < job["min"]: raise SystemExit(fail("only %d operations to analyse, expected at least %d" % (len(ops), job["min"])))
    k = max(1, min(ctx.jobs, 8)); parts = [ops[i::k] for i in range(k)]
    def shard(i):
        f = os.path.join(ctx.tmp, "eff%d" % i); open(f, "w").write("\n".join(parts[i]) + "\n")
        r = run([VERIF + "/build/eff", bc, "-m", mode, "-F", f])
        if r.returncode not in (0, 1): return [dict(spec=o, checks=0, ends=0, undecided=["analyzer failed: " + r.stderr[-200:]], violations=[]) for o in parts[i]]
        return [json.loads(x) for x in r.stdout.splitlines() if x.startswith("{")]
    with ThreadPoolExecutor(k) as ex:
        for res in ex.map(shard, range(k)):
            for r in res: r["driver"] = "ops"; ctx.results.append(r)
def fail(msg):
    print("ERROR: " + msg, flush=True); return 2
