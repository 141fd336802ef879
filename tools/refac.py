#!/usr/bin/env python3
"""refac.py [name...]: behaviour-preserving edits on scratch copies; every listed check must stay quiet (exit 0)."""
import os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "include/nil/crypto3/algebra/"
R = []
def X(name, pids, f, *pairs): R.append((name, pids.split(","), f, pairs))
for f in sorted(os.listdir(V + "/tools/refactorings")):
    if f.endswith(".py"): exec(open(V + "/tools/refactorings/" + f).read())
sel = sys.argv[1:]
R = [r for r in R if not sel or any(s in r[0] for s in sel)]
def go(r):
    name, pids, f, pairs = r
    d = tempfile.mkdtemp(prefix="refac"); out = []
    try:
        shutil.copytree("/repo/include", d + "/include")
        p = f"{d}/{A}{f}"; s = open(p).read()
        for a, b in pairs:
            if a not in s: return name, "PATTERN NOT FOUND " + a[:60]
            s = s.replace(a, b)
        open(p, "w").write(s)
        for pid in pids:
            c = subprocess.run(["timeout", "800", "python3", V + "/run.py", pid], env={**os.environ, "VERIF_REPO": d, "VERIF_EVID": d}, capture_output=True, text=True)
            if c.returncode: out.append(f"{pid} rc {c.returncode}\n" + (c.stdout + c.stderr)[-1500:])
        return name, "\n".join(out)
    finally: shutil.rmtree(d)
with ThreadPoolExecutor(3) as ex:
    for name, o in ex.map(go, R): print(name, "ok" if not o else "FAIL " + o, flush=True)
