#!/usr/bin/env python3
"""seedtest.py <seed dir> [checks...]: validate a planted bug in a scratch copy and run the checks against it."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
d = os.path.abspath(sys.argv[1]); meta = json.load(open(d + "/meta.json"))
tmp = tempfile.mkdtemp(prefix="seed")
r = os.path.join(tmp, "repo")
try:
    sh(f"git -C /repo worktree prune; git clone -q /repo {r}")
    ok0 = sh(f"bash {d}/demo.sh", cwd=r)
    ap = sh(f"git apply {d}/patch.diff", cwd=r)
    if ap.returncode: print("PATCH DOES NOT APPLY", ap.stdout); sys.exit(2)
    t = [sh(f"clang++-18 -std=gnu++17 -O2 -DNDEBUG -I{r}/include -fsyntax-only {r}/test/{x}.cpp") for x in ("matrix", "vector")]
    hdrs = open("/opt/vp/cmake/headers.txt").read().split()
    bad = []
    hs = sh(f"for h in $(cat /opt/vp/cmake/headers.txt); do f={r}/include/$h; [ -f $f ] || f={r}/$h; echo $f; done | xargs -P8 -I@ sh -c 'clang++-18 -std=gnu++17 -DNDEBUG -I{r}/include -fsyntax-only -w -x c++ @ >/dev/null 2>&1 || echo BAD @'").stdout
    ok1 = sh(f"timeout 280 bash {d}/demo.sh", cwd=r)
    print(f"{os.path.basename(d)}: demo clean={ok0.returncode} patched={ok1.returncode} tests={[x.returncode for x in t]} headers={hs.strip() or 'ok'}")
    if ok0.returncode: print(ok0.stdout[-1500:])
    if ok1.returncode == 0: print(ok1.stdout[-500:])
    for x in t:
        if x.returncode: print(x.stdout[:600])
    for p in (sys.argv[2:] or [meta["property"]]):
        c = sh(f"VERIF_REPO={r} python3 run.py {p}", cwd=V)
        print("  check", p, "rc", c.returncode, c.stdout[-700:])
finally:
    shutil.rmtree(tmp)
