#!/usr/bin/env python3
"""seed.py mk FILE.py...   : make /verif/seeded/<id> from a definition (edits + demo)
   seed.py try ID...       : build, stable tests and demo in a private copy; then the property's check (dev tool, no check uses it)"""
import sys, os, subprocess, json, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + "/seeded"
DEMO = '''#!/bin/bash
# run with cwd /repo; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -r "$t"' EXIT
%s
'''
RUN = 'g++ -std=c++17 -O1 -w %s -I"$PWD/include" -isystem /opt/vp/compat "$d/demo.cpp" -o "$t/demo" || exit 1\n(%stimeout 120 "$t/demo")'
def mk(path):
    for text in re.split(r"(?m)^#### ", open(path).read())[1:]:
        i, rest = text.split("\n", 1)
        g = {}; exec(rest, g)
        d = S + "/" + i.strip(); os.makedirs(d, exist_ok=True)
        w = "/tmp/seedmk"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        subprocess.check_call("git -C /repo archive HEAD include | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x" % (w, w), shell=True)
        for f, o, n in g["edits"]:
            p = w + "/include/boost/intrusive/" + f; s = open(p).read()
            if s.count(o) != 1: print(i, "pattern occurs", s.count(o), "times:", o[:60]); return
            open(p, "w").write(s.replace(o, n))
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True).stdout)
        if "demo" in g: open(d + "/demo.cpp", "w").write(g["demo"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO % g.get("sh", RUN % (g.get("flags", ""), g.get("pre", ""))))
        json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", i)
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tr(i, check=True, test=True):
    d = S + "/" + i; w = "/tmp/sw_" + i; m = json.load(open(d + "/meta.json"))
    subprocess.run(["rm", "-rf", w]); subprocess.check_call(["cp", "-a", "/repo", w])
    inn = lambda c: sh("unshare -rm bash -c 'mount --bind %s /repo; cd /repo; %s'" % (w, c))
    out = [i]
    try:
        r = inn("bash %s/demo.sh" % d); out.append("demo-clean=%d" % r.returncode)
        if r.returncode: print(r.stdout[-800:])
        r = sh("cd %s && git apply %s/patch.diff" % (w, d)); 
        if r.returncode: print(i, "patch fails", r.stdout); return
        r = inn("bash %s/demo.sh" % d); out.append("demo-bug=%d" % r.returncode)
        if test:
            inn("bash /opt/vp/build.sh >/tmp/x.log 2>&1; bash /opt/vp/test.sh %s/out.json >/tmp/x2.log 2>&1" % w)
            o = json.load(open(w + "/out.json")); p = set(o["passed"])
            bad = sorted(STABLE - p); out.append("tests: %s" % ("ok" if not bad else "FAIL " + " ".join(bad)))
        if check:
            r = sh("python3 %s/bin/check.py %s --repo %s" % (V, m["property"], w)); 
            v = [l for l in r.stdout.splitlines() if "first:" in l or "ERROR" in l]
            out.append("check %s=%d %s" % (m["property"], r.returncode, (v or [""])[0][:220]))
        print(" | ".join(out), flush=True)
    finally: subprocess.run(["rm", "-rf", w])
if sys.argv[1] == "mk":
    for f in sys.argv[2:]: mk(f)
else:
    o = [a for a in sys.argv[2:] if not a.startswith("--")]
    for i in o or sorted(os.listdir(S)): tr(i, "--nocheck" not in sys.argv, "--notest" not in sys.argv)
