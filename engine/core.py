"""Common driver for the static checks: builds the analyser, compiles harness translation units from
/repo's current source to LLVM IR, and turns obligations into evidence / VIOLATION / KNOWN-FINDING."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
EVID = os.path.join(os.environ.get("VERIF_EVID", VERIF), "evidence")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

CFLAGS = ["-std=c++17", "-DNDEBUG", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize",
          "-ffp-contract=off", "-w", "-ferror-limit=5", "-fconstexpr-steps=2000000000", "-fconstexpr-depth=100000",
          "-ftemplate-depth=4000", "-Wno-everything"]


class Broken(Exception):
    """analysis-broken: neither pass nor violation"""


class HarnessError(Broken):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def irdump_path():
    src = os.path.join(VERIF, "engine", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "irdump-" + h)
    if os.path.exists(out): return out
    os.makedirs(BUILD, exist_ok=True)
    cfg = shutil.which("llvm-config-18") or shutil.which("llvm-config")
    cxx = [f for f in sh([cfg, "--cxxflags"]).stdout.split() if not f.startswith("-std")]
    ld = sh([cfg, "--ldflags", "--libs", "core", "irreader", "support"]).stdout.split()
    tmp = out + f".{os.getpid()}.tmp"
    r = sh([CXX, "-O1", "-std=c++17", *cxx, "-fno-rtti", src, "-o", tmp, *ld])
    if r.returncode: raise Broken("cannot build irdump:\n" + r.stdout)
    os.replace(tmp, out)
    return out


class TU:
    """One harness translation unit."""
    def __init__(self, name, text, flags=(), stub=False):
        self.name = name; self.text = text; self.flags = list(flags); self.stub = stub

    def compile(self, tmp, opt="-O1"):
        src = os.path.join(tmp, self.name + ".cpp")
        with open(src, "w") as f: f.write(self.text)
        bc = os.path.join(tmp, self.name + ".bc"); js = os.path.join(tmp, self.name + ".json")
        inc = ["-I" + os.path.join(VERIF, "harness"), "-I" + INC]
        if self.stub: inc = ["-I" + os.path.join(VERIF, "stub")] + inc
        r = sh([CXX, *CFLAGS, opt, *self.flags, *inc, "-emit-llvm", "-c", src, "-o", bc])
        if r.returncode:
            raise HarnessError(f"harness {self.name} does not compile against the current tree:\n" + r.stdout[-4000:])
        r = sh(f"{irdump_path()} {bc} > {js}", shell=True)
        if r.returncode: raise Broken("irdump failed: " + r.stdout[-2000:])
        os.unlink(bc)
        return js


def syntax_ok(text, flags=(), stub=False, tmp=None):
    """Does this program type-check?  returns (ok, diagnostics)"""
    own = tmp is None
    if own: tmp = tempfile.mkdtemp(prefix="verif")
    try:
        fd, src = tempfile.mkstemp(suffix=".cpp", dir=tmp); os.close(fd)
        with open(src, "w") as f: f.write(text)
        inc = ["-I" + os.path.join(VERIF, "harness"), "-I" + INC]
        if stub: inc = ["-I" + os.path.join(VERIF, "stub")] + inc
        r = sh([CXX, *CFLAGS, *inc, *flags, "-fsyntax-only", src])
        return r.returncode == 0, r.stdout
    finally:
        if own: shutil.rmtree(tmp, ignore_errors=True)


class Check:
    def __init__(self, pid, level, technique_note):
        self.pid = pid; self.level = level; self.note = technique_note
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.t0 = time.time()
        self.obl = []          # (key, ok, detail, loc)
        self.analysed = set(); self.blocks = 0; self.insts = 0
        self.files = set()
        self.samples = []
        self.assumptions = []
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.extra = {}
        self.floor = 1
        self.groups = {}

    # ---------------------------------------------------------------- recording
    def ob(self, key, ok, detail="", loc=None, sample=None):
        self.obl.append((key, bool(ok), detail, loc))
        if sample and len(self.samples) < 12: self.samples.append(sample)
        elif ok and len(self.samples) < 4 and detail: self.samples.append(f"{key}: {detail}"[:300])

    def absorb(self, I):
        """statistics of one abstract interpretation"""
        self.analysed |= I.stats["functions"]; self.blocks += I.stats["blocks"]; self.insts += I.stats["insts"]

    def compile_all(self, tus, opt="-O1", jobs=8):
        from absint import Module
        irdump_path()
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda t: t.compile(self.tmp, opt), tus))
        mods = {}
        for t, js in zip(tus, res):
            m = Module(js); mods[t.name] = m
            os.unlink(js)
            for fn in m.fns.values():
                f = fn.get("file")
                if f and f.startswith(REPO): self.files.add(os.path.relpath(f, REPO))
        return mods

    # ---------------------------------------------------------------- finishing
    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p): return []
        return [k for k in json.load(open(p))["findings"] if k["property"] == self.pid and k.get("status", "open") == "open"]

    def finish(self):
        n = len(self.obl); bad = [o for o in self.obl if not o[1]]
        if n < self.floor:
            raise Broken(f"{self.pid}: only {n} obligations, expected at least {self.floor} (vanished anchor?)")
        known = self.known(); kkeys = {}
        for k in known:
            for x in k["keys"]: kkeys[x] = k
        viol = []; hit = {}
        for o in bad:
            k = kkeys.get(o[0])
            if k is not None: hit.setdefault(k["id"], []).append(o)
            else: viol.append(o)
        for k in known:
            if k["id"] in hit:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']} [{len(hit[k['id']])} obligation(s): {', '.join(o[0] for o in hit[k['id']][:4])}]")
        seen = {}
        for key, _, _, _ in self.obl: seen[key] = seen.get(key, 0) + 1
        cov = {"explanation": self.note, "obligations": n, "discharged": n - len(bad),
               "distinct_obligation_keys": len(seen),
               "ir_functions_analysed": len(self.analysed), "ir_blocks": self.blocks, "ir_instructions": self.insts,
               "source_files_seen": sorted(self.files)[:80], "samples": self.samples or [o[0] for o in self.obl[:5]],
               "known_findings_hit": sorted(hit)}
        cov["checker_cmd"] = f"python3 checks/{os.path.basename(sys.argv[0])} {self.pid}" if len(sys.argv) > 1 else "python3 run.py"
        cov["trusted_base"] = ["clang 18 front end and -O1 passes", "engine/irdump.cpp", "engine/absint.py (IR semantics)",
                               "engine/poly.py (polynomial normal form)", "oracle formulas in checks/", "stub multiprecision semantics (stub/)"]
        cov["obligations_by_group"] = {}
        for key, ok, _, _ in self.obl:
            g = key.split("/")[0]
            d = cov["obligations_by_group"].setdefault(g, [0, 0]); d[0] += 1; d[1] += bool(ok)
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid}: {n} obligations, {n - len(bad)} discharged, {len(viol)} violations, "
              f"{len(self.analysed)} IR functions / {self.insts} instructions interpreted, {time.time() - self.t0:.1f}s")
        if viol:
            rd = os.path.join(EVID, "replay"); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, f"{self.pid}.json")
            json.dump({"property": self.pid, "violations": [{"obligation": k, "detail": d, "where": l} for k, _, d, l in viol]},
                      open(rp, "w"), indent=1, default=str)
            for k, _, d, l in viol[:None if os.environ.get("VERIF_ALL") else 12]:
                print(f"  rule {k} broken at {l or '?'}: {str(d)[:600]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def where(module, anchor):
    """file:line of a library function by (unmangled) name, from the debug info of the analysed IR."""
    best = None
    name, _, filt = anchor.partition("@")
    for fn in module.fns.values():
        if "blocks" not in fn: continue
        for b in fn["blocks"]:
            for i in b:
                for f, l, s in i.get("loc") or ():
                    if f.startswith(REPO + "/include") and (s.split("<")[0] == name or name == "operator<<" and s.startswith(name)) and filt in f and l:
                        if best is None or (f, l) < best: best = (f, l)
    return f"{best[0]}:{best[1]} in {name}" if best else anchor


def run(pid, body, level="other", note=""):
    """entry point used by every check script; body(check)"""
    rc = [3]

    def go():
        c = Check(pid, level, note)
        try:
            body(c)
            rc[0] = c.finish()
        except Exception as e:
            if not isinstance(e, Broken): traceback.print_exc()
            print(f"{pid}: analysis broken: {e if isinstance(e, Broken) else 'internal error'}"); rc[0] = 3
            if any(not o[1] for o in c.obl):   # obligations already refuted stay refuted
                c.floor = 0
                rc[0] = c.finish() or 3
        finally:
            c.cleanup()
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    threading.stack_size(1 << 29)
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush()
    sys.exit(rc[0])
