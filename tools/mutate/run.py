#!/usr/bin/env python3
"""run.py FILES... [-n N] [-seed S] [-obl REGEX]: mutation test of the framework.

Works on copies under /tmp/mut. Every mutant that compiles and passes the
repository's tests is given to the engine and to the native runner; a mutant on
which they disagree (the engine proves what a native run refutes) is a defect of
the engine, one that both accept is either equivalent or a gap.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, VERIF)
from check import goenv
ap = argparse.ArgumentParser()
ap.add_argument("files", nargs="+")
ap.add_argument("-n", type=int, default=20)
ap.add_argument("-seed", type=int, default=1)
ap.add_argument("-obl", default="O_.*")
ap.add_argument("-not", dest="no", default="O_Tag02|O_Tag05|O_Tag06|O_Tag07|O_Tag14|O_Entry")
ap.add_argument("-t", default="40s")
ap.add_argument("-secs", default="6")
ap.add_argument("-work", default="/tmp/mut")
a = ap.parse_args()
W = a.work
env = goenv()
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
subprocess.check_call(["cp", "-a", os.environ.get("REPO", "/repo"), W + "/repo"])
subprocess.check_call(["cp", "-a", VERIF + "/harness", W + "/harness"])
p = W + "/harness/go.mod"
s = open(p).read().replace("=> /repo", "=> %s/repo" % W)
open(p, "w").write(s)
subprocess.check_call(["go", "build", "-o", W + "/mutate", "."], cwd=VERIF + "/tools/mutate", env=env)
subprocess.check_call(["go", "build", "-o", W + "/engine", "."], cwd=VERIF + "/engine", env=env)
ms = [json.loads(l) for l in subprocess.check_output([W + "/mutate"] + a.files, cwd=W + "/repo", env=env).splitlines()]
random.Random(a.seed).shuffle(ms)
names = sorted(set(re.findall(r'^func (O_\w+)\(', "".join(open(W + "/harness/obl/" + f).read() for f in os.listdir(W + "/harness/obl")), re.M)))
names = [n for n in names if re.match("^(%s)$" % a.obl, n) and not re.match("^(%s)$" % a.no, n)]
print(len(ms), "mutants,", len(names), "obligations", flush=True)
done = 0
for m in ms:
    if done >= a.n:
        break
    f = W + "/repo/" + m["file"]
    src = open(f, "rb").read()
    open(f, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["off"] + m["len"]:])
    try:
        what = "%s:%d %r -> %r" % (m["file"], m["line"], m["old"][:50], m["new"][:50])
        if subprocess.run(["go", "build", "-o", W + "/native", "./cmd/native"], cwd=W + "/harness", env=env, capture_output=True).returncode:
            continue
        if subprocess.run(["go", "test", "-timeout", "60s", "./..."], cwd=W + "/repo", env=env, capture_output=True).returncode:
            continue
        done += 1
        t0 = time.time()
        try:
            r = subprocess.run([W + "/native", "-obl", ",".join(names), "-n", "1000000", "-secs", a.secs], capture_output=True, timeout=120, env=env)
            try:
                fl = json.loads(r.stdout)["fails"] or []
                nat = "native: " + (fl[0]["obligation"] + " " + fl[0]["facet"] if fl else "-")
            except ValueError:
                fl, nat = [1], "native: died"
        except subprocess.TimeoutExpired:
            fl, nat = [1], "native: hangs"
        try:
            subprocess.run([W + "/engine", "-dir", W + "/harness", "-run", "|".join(names), "-t", a.t, "-out", W + "/r.json"], capture_output=True, timeout=600, env=env)
            R = json.load(open(W + "/r.json"))["results"]
            os.remove(W + "/r.json")
        except Exception as e:
            R = []
        ref = ["%s %s" % (r["name"], x["facet"]) for r in R for x in (r.get("fails") or []) if x["status"] == "refuted"]
        unk = [r["name"] + ": " + (r.get("why") or "")[:60] for r in R if r["status"] == "unknown"]
        if not R:
            eng = "engine: no answer"
        elif ref:
            eng = "engine: %d refuted %s" % (len(ref), ref[0])
        elif unk:
            eng = "engine: unknown " + unk[0]
        else:
            eng = "engine: proved"
        tag = "ok      "
        if eng == "engine: proved":
            tag = "UNSOUND " if fl else "survived"
        elif not fl:
            tag = "noinput " if ref else "UNKNOWN "
        print(tag, what, "|", nat, "|", eng, "| %.0fs" % (time.time() - t0), flush=True)
    finally:
        open(f, "wb").write(src)
shutil.rmtree(W, ignore_errors=True)
