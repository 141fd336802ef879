"""mkseed(id, property, file, old, new, needs, breaks, demo_cpp): write /verif/seeded/<id> (patch via git diff on a scratch clone)."""
import os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mkseed(id, prop, edits, needs, breaks, demo, flags="", run=True, extra=None, demo_sh=None, lib=False):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(); r = tmp + "/repo"
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    for f, a, b in edits:
        p = os.path.join(r, "include/nil/crypto3", f); s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(tmp)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo is not None: open(d + "/demo.cpp", "w").write(demo)
    for n, t in (extra or {}).items(): open(os.path.join(d, n), "w").write(t)
    if lib:
        L = os.path.join(V, "tools/demolib")
        for n in ((lib,) if isinstance(lib, str) else ()) + ("ff.hpp", "grp.hpp"): shutil.copy(os.path.join(L, n), d)
        shutil.copytree(os.path.join(L, "inc"), d + "/inc", dirs_exist_ok=True)
        flags += ' -I"$D" -I"$D/inc"'
    open(d + "/demo.sh", "w").write(demo_sh or f'''#!/bin/bash
# cwd: the repository; compiles a small program against its headers and runs it
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'find "$T" -type f -delete; rmdir "$T"' EXIT
clang++-18 -std=c++17 -O1 -DNDEBUG -w {flags} -I"$PWD/include" "$D/demo.cpp" -o "$T/demo" || exit 3
timeout 120 "$T/demo"
''')
