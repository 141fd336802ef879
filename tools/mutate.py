#!/usr/bin/env python3
"""mutate.py <pids,comma> <header relative to include/nil/crypto3/algebra>... [-n MAX]
Token-level mutants of the given headers, in a scratch copy; prints the mutants no listed check reports (survivors)."""
import os, re, subprocess, sys, shutil, tempfile, random
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; N = 60
if "-n" in args: i = args.index("-n"); N = int(args[i + 1]); del args[i:i + 2]
pids = args[0].split(","); files = args[1:]
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\.squared\(\)", ""), (r"\.doubled\(\)", ""), (r"\bX\b", "Y"), (r"\bY\b", "X"), (r"\bZ\b", "X"),
       (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" < ", " <= "), (r" > ", " >= "), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"),
       (r"\bzero\(\)", "one()"), (r"\bone\(\)", "zero()"), (r"\.is_zero\(\)", ".is_one()"), (r"return -", "return "), (r"\(-", "("), (r"\+=", "-="), (r"-=", "+="), (r"\bdata\[0\]", "data[1]"), (r"\bdata\[1\]", "data[0]"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bother\b", "(*this)"), (r"<= ", "< "), (r">= ", "> "), (r"!(\w)", r"\1"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"\.inversed\(\)", ""), (r"\ba\b", "b"), (r"\bd\b", "a"), (r"\[1\]", "[2]"), (r"\[2\]", "[1]"),
       (r"^(\s*)(?!return|typedef|using|static|const|template|friend|public|private)(\S.*;)\s*$", r"\1;")]
muts = []
for f in files:
    L = open(f"/repo/include/nil/crypto3/algebra/{f}").read().split("\n"); cm = False
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith("/*") or cm: cm = "*/" not in s; continue
        if s.startswith(("//", "#", "*", "namespace", "typedef", "using", "template", "static_assert")) or not s: continue
        code, sep, com = l.partition("//")
        for a, b in OPS:
            for m in re.finditer(a, code):
                if a.startswith("^") and (len(s) < 4 or s.startswith("}") or s == "return;"): continue
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n.strip() != code.strip(): muts.append((f, i, l, n + sep + com))
random.seed(int(os.environ.get("MUTSEED", "1"))); random.shuffle(muts)
total = len(muts); muts = muts[:N]
J = 4
dirs = []
import queue
q = queue.Queue()
for j in range(J):
    d = tempfile.mkdtemp(prefix="mut"); shutil.copytree("/repo/include", d + "/include"); dirs.append(d); q.put(d)
res = {"killed": 0, "nocompile": 0, "broken": 0, "survived": []}
def go(m):
    f, i, l, n = m; d = q.get()
    p = f"{d}/include/nil/crypto3/algebra/{f}"; orig = open(f"/repo/include/nil/crypto3/algebra/{f}").read()
    L = orig.split("\n"); L[i] = n
    try:
        open(p, "w").write("\n".join(L)); out = []
        for pid in pids:
            r = subprocess.run(["timeout", "300", "python3", V + "/run.py", pid], env={**os.environ, "VERIF_REPO": d, "VERIF_EVID": d}, capture_output=True, text=True)
            out.append((r.returncode, r.stdout + r.stderr))
            if r.returncode == 1: return m, "killed", ""
        if any("does not compile" in o for _, o in out): return m, "nocompile", ""
        if any(c != 0 for c, _ in out): return m, "broken", out[0][1][-300:]
        return m, "survived", ""
    finally:
        open(p, "w").write(orig); q.put(d)
with ThreadPoolExecutor(J) as ex:
    for (f, i, l, n), k, o in ex.map(go, muts):
        if k == "survived": res["survived"].append(f"{f}:{i+1}: {l.strip()}\n      -> {n.strip()}")
        else: res[k] += 1
        if k == "broken": res["survived"].append(f"BROKEN {f}:{i+1}: {l.strip()}\n      -> {n.strip()}\n   {o.strip()}")
for d in dirs: shutil.rmtree(d)
print(f"{total} possible, {len(muts)} tried: killed {res['killed']}, not compiling {res['nocompile']}, broken {res['broken']}, survived {len(res['survived']) - res['broken']}")
for s in res["survived"]: print("  " + s)
