#!/usr/bin/env python3
"""autorefac.py [op...] [-p PIDS]: apply one behaviour-preserving rewrite to every header of the library (scratch copy); all checks must stay quiet."""
import os, re, subprocess, sys, shutil, tempfile, glob, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID = r"(?<![\w.>:\]\)])([A-Za-z_]\w*)"; END = r"(?![\w.(\[:<>*-])"
OPS = {
 "square": [(r"(?<![\w.>\]\):])([A-Za-z]\w*)\.squared\(\)", r"(\1 * \1)")],
 "double": [(r"(?<![\w.>\]\):])([A-Za-z]\w*)\.doubled\(\)", r"(\1 + \1)")],
 "commute": [(r"(?<=[=(,n] )" + ID[len(r"(?<![\w.>:\]\)])"):] + r" \* ([A-Za-z]\w*)" + END, r"\2 * \1"), (r"(?<=\()([A-Za-z]\w*) \* ([A-Za-z]\w*)(?=\))", r"\2 * \1")],
 "commute-add": [(r"(?<=\()([A-Za-z]\w*) \+ ([A-Za-z]\w*)(?=\))", r"\2 + \1"), (r"(?<== )([A-Za-z]\w*) \+ ([A-Za-z]\w*)(?=;)", r"\2 + \1")],
 "incr": [(r"; \+\+(\w+)\)", r"; \1++)"), (r"; (\w+)\+\+\)", r"; ++\1)"), (r"; --(\w+)\)", r"; \1--)")],
 "noteq": [(r"(?<=[( ])(\w+) != (\w+)(?=[;)])", r"!(\1 == \2)")],
 "flip": [(r"(?<=[; (])([a-z]\w*) < ([A-Za-z0-9]\w*)(?=[;)])", r"\2 > \1")],
 "swap-and": [(r"\((\w+) && (\w+)\)", r"(\2 && \1)"), (r"\((\w+) \|\| (\w+)\)", r"(\2 || \1)"), (r"return \(?([\w.]+ == [\w.]+) && ([\w.]+ == [\w.]+)\)?;", r"return \2 && \1;")],
 "ret-local": [(r"^(\s+)return ((?:(?!return)[^;{}\"])*\*[^;{}\"]*);$", r"\1const auto refactored_result = \2;\n\1return refactored_result;")],
 "ret-auto": [(r"^(\s+)return (\w+(?:\([^;{}\"]*\))(?:\.\w+\(\))?);$", r"\1auto refactored_result = \2;\n\1return refactored_result;")],
 "braces": [(r"^(\s+)(\w+(?:\.\w+)* [*+-]?= [^;{}\"]*;)$", r"\1{ \2 }")],
 "noop": [(r"^(\s+)(return [^;{}\"]*;)$", r"\1(void)0;\n\1\2")],
 "constlocal": [(r"^(\s+)if \(((?:[^(){}]|\([^()]*\))*)\) \{$", r"\1if (const bool refactored_cond = bool(\2)) {")],
}
# the pattern of 'constlocal' must not hit if constexpr / else-if chains: those start differently
args = sys.argv[1:]; pids = None
if "-p" in args: i = args.index("-p"); pids = args[i + 1].split(","); del args[i:i + 2]
ops = args or list(OPS)
pids = pids or [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
def build(op):
    d = tempfile.mkdtemp(prefix="aref"); shutil.copytree("/repo/include", d + "/include"); n = 0
    def okc(p):
        return subprocess.run(["clang++-18", "-std=gnu++17", "-DNDEBUG", "-w", f"-I{d}/include", f"-I{V}/stub", "-fsyntax-only", "-x", "c++", p], capture_output=True).returncode == 0
    fs = glob.glob(d + "/include/**/*.hpp", recursive=True)
    def one(p):
        if "params" in os.path.basename(p): return 0
        s = open(p).read(); out = []; k = 0; cm = False
        for l in s.split("\n"):
            t = l.strip()
            if t.startswith("/*") or cm: cm = "*/" not in t; out.append(l); continue
            if t.startswith(("#", "//", "*", "template", "typedef", "using", "static_assert", "namespace")) or "constexpr static" in t or "enable_if" in t: out.append(l); continue
            code, sep, com = l.partition("//")
            for a, b in OPS[op]:
                code2, m = re.subn(a, b, code.rstrip() if sep == "" else code); k += m; code = code2
            out.append(code + sep + com)
        if not k: return 0
        ok0 = okc(p)
        lines0 = s.split("\n")
        open(p, "w").write("\n".join(out))
        if ok0 and not okc(p):
            # keep the rewritten lines that compile: drop by halves
            idx = [i for i in range(len(out)) if out[i] != lines0[i]]
            good = []
            def attempt(sub):
                open(p, "w").write("\n".join(out[i] if i in good or i in sub else lines0[i] for i in range(len(out)))); return okc(p)
            def rec(sub):
                if not sub: return
                if attempt(set(sub)): good.extend(sub); return
                if len(sub) == 1: return
                rec(sub[:len(sub) // 2]); rec(sub[len(sub) // 2:])
            rec(idx); attempt(set()); k = len(good)
        return k
    with ThreadPoolExecutor(6) as ex: n = sum(ex.map(one, fs))
    return d, n
def chk(a):
    d, pid = a
    c = subprocess.run(["timeout", "850", "python3", V + "/run.py", pid], env={**os.environ, "VERIF_REPO": d, "VERIF_EVID": d}, capture_output=True, text=True)
    return pid, c.returncode, (c.stdout + c.stderr)
for op in ops:
    d, n = build(op)
    try:
        print(f"== {op}: {n} rewrites", flush=True)
        with ThreadPoolExecutor(3) as ex:
            for pid, rc, o in ex.map(chk, [(d, p) for p in pids]):
                if rc: print(f"{op} {pid} rc {rc}\n" + "\n".join(l for l in o.split("\n") if "error:" in l or "rule" in l or "broken" in l)[:1500], flush=True)
    finally:
        if "-k" not in sys.argv: shutil.rmtree(d)
