#!/usr/bin/env python3
"""Constants in /repo's source that the verified tree does not have (literals.txt):
the native runner uses them for its inputs. `literals.py` regenerates the list."""
import ast, json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
LIT = re.compile(r'"(?:[^"\\\n]|\\.)*"|`[^`]*`|\'(?:[^\'\\\n]|\\.)+\'|//[^\n]*|/\*.*?\*/|\b(?:0[xX][0-9a-fA-F_]+|[0-9][0-9_]*)\b', re.S)

def literals(repo="/repo"):
    out = set()
    for d, ds, fs in os.walk(repo):
        ds[:] = [x for x in ds if not x.startswith(".") and x != "testdata"]
        for f in fs:
            if f.endswith(".go") and not f.endswith("_test.go"):
                for m in LIT.findall(open(os.path.join(d, f), encoding="utf-8", errors="replace").read()):
                    if not m.startswith(("//", "/*")) and len(m) < 200:
                        out.add(m)
    return out

def dictionary():
    try:
        base = set(json.load(open(os.path.join(HERE, "literals.txt"))))
        words, nums = set(), set()
        for m in literals() - base:
            try:
                if m[0] == "`":
                    words.add(m[1:-1].encode())
                elif m[0] in "\"'":
                    v = ast.literal_eval(m)
                    words.add(v.encode("latin-1") if "\\x" in m else v.encode())
                else:
                    n = int(m.replace("_", ""), 0)
                    nums.update(x % 2**64 for x in (n - 1, n, n + 1, 8 * n))
            except (ValueError, SyntaxError, UnicodeError):
                pass
        words.discard(b"")
        return {"words": sorted(w.hex() for w in words)[:64], "nums": sorted(nums)[:256]}
    except OSError:
        return {"words": [], "nums": []}

if __name__ == "__main__":
    json.dump(sorted(literals()), open(os.path.join(HERE, "literals.txt"), "w"), indent=0)
