#!/usr/bin/env python3
"""check.py PROPERTY TIER: decides one property on /repo's current tree.

Builds the deductive engine and the native runner, has the engine discharge the
property's obligations (harness/obl, against harness/spec) from /repo's source,
replays counterexamples against the real code and writes evidence/<id>.json.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, VERIF)
from literals import dictionary
from props import PROPS, BOUNDED, ASSUME  # noqa

def goenv():
    env = dict(os.environ)
    env.update(GOENV="off", GO111MODULE="on", GOWORK="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
               TZ="UTC", LC_ALL="C.UTF-8", HOME=env.get("HOME", "/root"))
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    p = env.get("PATH", "")
    env["PATH"] = "/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:" + p
    return env

def short(x):
    t = x if isinstance(x, str) else json.dumps(x)
    return x if len(t) < 400 else t[:400] + "..."

def bombs():
    import zlib
    k = b"\0" * (1 << 20)
    for alg, bits in ((1, -15), (2, 15)):
        for mb, cut in ((1, 0), (16, 0), (300, 0), (1024, 1), (1024, 0), (1025, 0)):
            z = zlib.compressobj(9, zlib.DEFLATED, bits)
            d = b"".join(z.compress(k) for _ in range(mb - 1)) + z.compress(k[cut:]) + z.flush()
            yield "%02x" % alg + d.hex()

def run(cmd, timeout, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, "", "timeout: %s" % e

def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    facet = re.compile("^(%s)$" % cfg["facets"])
    owns = re.compile("^(%s)$" % cfg["obligations"])
    deep = tier == "thorough"
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="gpgverif-")
    env = goenv()
    try:
        return decide(prop, tier, t0, seed, cfg, facet, owns, deep, evd, tmp, env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decide(prop, tier, t0, seed, cfg, facet, owns, deep, evd, tmp, env):
    eng, nat = os.path.join(tmp, "engine"), os.path.join(tmp, "native")
    notes = []
    # the harness module is used from a copy, so that nothing under /verif changes
    har = os.path.join(tmp, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), har)
    rc, o, e = run(["go", "build", "-o", eng, "."], 600, cwd=os.path.join(VERIF, "engine"), env=env)
    if rc != 0:
        print("engine does not build:\n" + e)
        return 2
    rc, o, e = run(["go", "build", "-o", nat, "./cmd/native"], 600, cwd=har, env=env)
    if rc != 0:
        print("the harness does not compile against /repo:\n" + e)
        return 2
    names = sorted(set(re.findall(r'^func (O_\w+)\(', "".join(
        open(os.path.join(har, "obl", f)).read() for f in sorted(os.listdir(os.path.join(har, "obl")))), re.M)))
    names = [n for n in names if owns.match(n)]
    lim = 400 if deep else 150
    cmd = [eng, "-dir", har, "-run", "|".join(names), "-t", "%ds" % lim, "-out", os.path.join(tmp, "report.json"),
           "-total", "%ds" % (1300 if deep else 420)]
    if not cfg.get("relational"):
        cmd += ["-facet", "^(%s)$" % cfg["facets"]]
    rc, o, e = run(cmd, 1500 if deep else 560, cwd=tmp, env=env)
    results = []
    if rc == 0:
        results = json.load(open(os.path.join(tmp, "report.json")))["results"]
    else:
        notes.append("engine ended with %d: %s" % (rc, e[-2000:]))
    have = {r["name"] for r in results}
    for n in names:
        if n not in have:
            results.append({"name": n, "status": "unknown", "why": "no answer from the engine", "obligations": {}, "functions": [], "trusted": []})
    total = disch = undec = 0
    funcs, trusted = set(), set()
    solver_s = queries = lia = shots = 0
    refuted, open_obl, per = [], [], {}
    for r in results:
        n = sum(v for k, v in (r.get("obligations") or {}).items() if facet.match(k))
        fs = [f for f in (r.get("fails") or []) if facet.match(f["facet"])]
        bad = [f for f in fs if f["status"] == "refuted"]
        unk = [f for f in fs if f["status"] != "refuted"]
        total += n
        disch += max(0, n - len(fs))
        undec += len(unk)
        per[r["name"]] = {"status": r["status"] if fs or r.get("why") else "proved", "obligations": n, "discharged": max(0, n - len(fs)),
                          "cases": r.get("cases", 1) or 1, "wall_s": round(r.get("wall_s", 0), 2)}
        funcs.update(r.get("functions") or [])
        trusted.update(r.get("trusted") or [])
        solver_s += r.get("solver_s", 0)
        queries += r.get("queries", 0)
        lia += r.get("linear_refutations", 0) + r.get("linear_witnesses", 0)
        shots += r.get("fresh_queries", 0)
        for f in bad:
            refuted.append((r["name"], f))
        if unk or r.get("why"):
            open_obl.append((r["name"], r.get("why") or "; ".join("%s at %s: %s" % (f["facet"], f["pos"], f["what"]) for f in unk)))
    # C10 also looks at refutations of other facets that depend on an option
    other = []
    if cfg.get("relational"):
        for r in results:
            for f in (r.get("fails") or []):
                if f["status"] == "refuted" and not facet.match(f["facet"]):
                    other.append((r["name"], f))
    fx = cfg["facets"] + ("|opt\\..*" if cfg.get("relational") else "")
    fx = "^(%s)$" % fx
    evals = distinct = 0
    samples, found = [], []

    words = os.path.join(tmp, "words.json")
    json.dump(dictionary(), open(words, "w"))

    def native(args, secs):
        nonlocal evals, distinct
        rc, o, e = run([nat, "-facet", fx, "-dict", words] + args, secs + 60, cwd=tmp, env=env)
        try:
            d = json.loads(o)
        except ValueError:
            # the process died: a fatal error of the code under test
            notes.append("native run ended with %d: %s" % (rc, e[-800:]))
            last = os.path.join(tmp, "last.json")
            rc, o, e2 = run([nat, "-facet", fx, "-dict", words, "-last", last] + args, secs + 60, cwd=tmp, env=env)
            try:
                json.loads(o)
            except ValueError:
                if os.path.exists(last) and re.match(fx, "safety"):
                    f = json.load(open(last))
                    f["what"] += ": " + (e2 or e)[:1500]
                    return {"fails": [f]}
            return {"fails": []}
        evals += d["runs"]
        distinct += d["distinct"]
        for s in d.get("samples") or []:
            if len(samples) < 4:
                samples.append({"obligation": s["obligation"], "inputs": {k: short(x) for k, x in s["inputs"].items()}})
        return d

    # counterexamples, replayed against the real code
    tried = set()
    for name, f in refuted + other:
        if found or len(tried) >= 12 or time.time() - t0 > 600:
            break
        if (name, f["facet"]) in tried:
            continue
        tried.add((name, f["facet"]))
        p = os.path.join(tmp, "near.json")
        if f.get("model"):
            json.dump({"obligation": name, "inputs": f["model"]}, open(p, "w"))
            found += native(["-replay", p], 30)["fails"]
            if not found:
                found += native(["-near", p, "-obl", name, "-n", "20000", "-secs", "8", "-seed", str(seed)], 8)["fails"]
        if not found:
            found += native(["-obl", name, "-n", "40000", "-secs", "10", "-seed", str(seed)], 10)["fails"]
    # undecided obligations: a bounded search stands in
    bounded = []
    for name, why in open_obl:
        bounded.append({"obligation": name, "why": why[:400]})
    # decompression limits are out of reach of generated inputs
    models = {n: x.get("model") for n, x in refuted if x.get("model")}
    if not found and "O_Tag08" in {n for n, _ in refuted + open_obl}:
        for b in bombs():
            if found or time.time() - t0 > 600:
                break
            p = os.path.join(tmp, "near.json")
            i = dict(models.get("O_Tag08") or {"cert": "bool:0", "debug": "bool:0", "mode": "u8:0"})
            i["body"] = "bytes:" + b
            json.dump({"obligation": "O_Tag08", "inputs": i}, open(p, "w"))
            found += native(["-replay", p, "-patience", "180s"], 180)["fails"]
    # first from where the engine gave up
    hints = {r["name"]: r.get("hints") or [] for r in results}
    for name, _ in open_obl:
        for h in hints.get(name, [])[:12]:
            if found or time.time() - t0 > 720:
                break
            p = os.path.join(tmp, "near.json")
            json.dump({"obligation": name, "inputs": h}, open(p, "w"))
            found += native(["-replay", p], 30)["fails"]
            if not found:
                found += native(["-near", p, "-obl", name, "-n", "20000", "-secs", "2", "-seed", str(seed)], 2)["fails"]
    if open_obl and not found:
        secs = 120 if deep else max(12, min(30, 6 * len(open_obl)))
        d = native(["-obl", ",".join(n for n, _ in open_obl), "-n", "1000000", "-secs", str(secs), "-seed", str(seed)], secs)
        found += d["fails"]
    # a counterexample that rests on a library function the engine knows too little about is undecided
    weak = sorted({n for n, x in refuted if x.get("soft")})
    if weak and not found:
        undec += sum(1 for n, x in refuted if x.get("soft"))
        for n in weak:
            bounded.append({"obligation": n, "why": "the counterexample depends on a library function that is only partly specified, and no native run confirms it"})
        secs = 120 if deep else 15
        found += native(["-obl", ",".join(weak), "-n", "1000000", "-secs", str(secs), "-seed", str(seed + 5)], secs)["fails"]
    # every obligation also runs on generated inputs, as a test of the engine itself
    if not found:
        secs = 90 if deep else 8
        d = native(["-obl", ",".join(names), "-n", "1000000", "-secs", str(secs), "-seed", str(seed + 17)], secs)
        found += d["fails"]
    extra = None
    if cfg.get("extra") and not found:
        import importlib
        extra = importlib.import_module(cfg["extra"]).check(tmp, env, deep, seed)
        evals += extra.get("evaluations", 0)
        for f in extra.get("fails", []):
            found.append(f)

    out, viol = [], 0
    for f in (os.listdir(evd)):
        if f.startswith("replay-%s-" % prop):
            os.remove(os.path.join(evd, f))
    if found:
        g = {}
        for f in found:
            g.setdefault((f["obligation"], f["facet"]), f)
        for i, f in enumerate(list(g.values())[:3]):
            p = os.path.join(evd, "replay-%s-%d.json" % (prop, i))
            f = dict(f)
            f["property"] = prop
            f["failed_obligations"] = [{"obligation": n, "facet": x["facet"], "at": x["pos"], "what": x["what"]} for n, x in refuted[:10]]
            f["how"] = "native -replay FILE (harness/cmd/native): runs the obligation on these inputs against the real code"
            json.dump(f, open(p, "w"), indent=1)
            out.append("VIOLATION property=%s replay=%s" % (prop, p))
            print("%s: %s at %s: %s" % (f["obligation"], f["facet"], f["where"], f["what"][:300]))
            viol += 1
    elif [x for _, x in refuted if not x.get("soft")]:
        refuted = [(n, x) for n, x in refuted if not x.get("soft")]
        p = os.path.join(evd, "replay-%s-0.json" % prop)
        json.dump({"property": prop, "failed_obligations": [
            {"obligation": n, "facet": x["facet"], "at": x["pos"], "what": x["what"], "verifier_model": x.get("model")} for n, x in refuted[:40]]},
            open(p, "w"), indent=1)
        for n, x in refuted[:5]:
            print("not discharged: %s: %s at %s: %s" % (n, x["facet"], x["pos"], x["what"]))
        out.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        viol = 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": total, "discharged": disch, "undecided": undec,
            "checker_cmd": "python3 check.py %s %s (engine: symbolic execution of /repo's SSA form against the contracts in harness/, back ends z3-new and cvc5)" % (prop, tier),
            "trusted_base": sorted(trusted) + ["engine/ (verification condition generator)", "golang.org/x/tools/go/ssa", "z3-new, cvc5", "harness/spec (specification)"],
            "functions_under_contract": sorted(f for f in funcs if "gpgpdump" in f),
            "contracts": per,
            "bounded_stand_in": bounded,
            "solver_s": round(solver_s, 2), "solver_queries": queries, "linear_answers": lia, "fresh_queries": shots,
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "native runs of the same obligations on generated inputs; one counts when it reaches a check with inputs not seen before",
            "samples": samples, "notes": notes,
        },
        "assumptions": ASSUME + cfg.get("assume", []),
        "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    if extra is not None:
        ev["coverage"]["extra"] = extra.get("coverage")
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1)
    print("%s %s: %d contracts, %d of %d obligations discharged, %d undecided contracts, %d native runs, %.0f s" % (
        prop, tier, len(names), disch, total, len(open_obl), evals, time.time() - t0))
    for n, w in open_obl:
        print("  bounded: %s (%s)" % (n, w[:160]))
    for l in out:
        print(l)
    return 1 if viol else 0

if __name__ == "__main__":
    sys.exit(main())
