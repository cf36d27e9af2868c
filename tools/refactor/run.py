#!/usr/bin/env python3
"""run.py [NAME-REGEX]: edits that keep the behaviour must be accepted.

On a copy of /repo under /tmp/refac: each case must build, pass the tests, show
no native difference, and not be refuted; undecided contracts are listed.
"""
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path[:0] = [VERIF, HERE]
from check import goenv
from cases import CASES
from cases2 import CASES as CASES2
W = "/tmp/refac"
env = goenv()
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
subprocess.check_call(["cp", "-a", os.environ.get("REPO", "/repo"), W + "/repo"])
subprocess.check_call(["cp", "-a", VERIF + "/harness", W + "/harness"])
p = W + "/harness/go.mod"
s = open(p).read().replace("=> /repo", "=> %s/repo" % W)
open(p, "w").write(s)
subprocess.check_call(["go", "build", "-o", W + "/engine", "."], cwd=VERIF + "/engine", env=env)
names = sorted(set(re.findall(r'^func (O_\w+)\(', "".join(open(W + "/harness/obl/" + f).read() for f in os.listdir(W + "/harness/obl")), re.M)))
for name, obl, edits in CASES + CASES2:
    if len(sys.argv) > 1 and not re.search(sys.argv[1], name):
        continue
    t0 = time.time()
    try:
        for f, old, new in edits:
            f = W + "/repo/" + f
            src = open(f).read()
            if old.startswith("FUNC:"):  # a whole function
                a = src.find("\n" + old[5:])
                old = src[a + 1:src.find("\n}\n", a) + 3] if a >= 0 else old
            if src.count(old) < 1:
                print(name, "EDIT DOES NOT APPLY", f, old[:60])
            open(f, "w").write(src.replace(old, new, 1))
        b = subprocess.run(["go", "test", "-timeout", "60s", "./..."], cwd=W + "/repo", env=env, capture_output=True)
        if b.returncode:
            print(name, "TESTS FAIL", (b.stdout + b.stderr).decode()[-1500:])
            continue
        subprocess.check_call(["go", "build", "-o", W + "/native", "./cmd/native"], cwd=W + "/harness", env=env)
        ns = [n for n in names if re.match("^(%s)$" % obl, n)]
        r = subprocess.run([W + "/native", "-obl", ",".join(ns), "-n", "1000000", "-secs", "8"], capture_output=True, timeout=300, env=env)
        fl = json.loads(r.stdout)["fails"] or []
        for x in fl[:2]:
            print(name, "NATIVE DIFFERENCE", json.dumps(x)[:600])
        if os.path.exists(W + "/r.json"):
            os.remove(W + "/r.json")
        er = subprocess.run([W + "/engine", "-dir", W + "/harness", "-run", "|".join(ns), "-t", "150s", "-out", W + "/r.json"], capture_output=True, timeout=900, env=env)
        if not os.path.exists(W + "/r.json"):
            print(name, "ENGINE FAILED", er.stderr.decode()[-1500:])
            continue
        R = json.load(open(W + "/r.json"))["results"]
        bad = 0
        for r in R:
            for x in (r.get("fails") or [])[:3]:
                print("   ", r["name"], x["status"].upper(), x.get("soft", ""), x["facet"], x["pos"], x["what"][:200])
            if r.get("why"):
                print("   ", r["name"], "undecided:", r["why"][:300])
            bad += r["status"] != "proved"
        print("%-16s %d of %d proved, %.0f s" % (name, len(R) - bad, len(R), time.time() - t0), flush=True)
    finally:
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=W + "/repo")
shutil.rmtree(W, ignore_errors=True)
