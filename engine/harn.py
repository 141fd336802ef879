"""Obligation lists -> harness TUs -> discharge."""
import absint
from core import TU, Broken, where
from absint import analyse, fmtloc, AnalysisError, Undef, D
from poly import BITS, Ring, Rat, Eval, DivZero, NeedSplit, enumerate_cases


class Ob:
    """One obligation: a C++ statement list (library calls on symbolic inputs) and an oracle.

    oracle(env) -> dict {output index: expected Rat/bool/int}; env: Env below.
    strata: list of (name, substitution function env -> dict input name -> Rat) ; default generic point.
    """
    def __init__(self, key, body, oracle=None, anchor="", strata=None, generic=True, expect_throw=False, tu="main", pos=(), custom=None, args=None):
        self.key = key; self.body = body; self.oracle = oracle; self.anchor = anchor
        self.strata = strata; self.generic = generic; self.expect_throw = expect_throw; self.tu = tu
        self.pos = pos; self.custom = custom


class Env:
    def __init__(self, R, names):
        self.R = R
        self.x = {n: None for n in names}

    def v(self, n):
        return Rat(self.R, self.R.add_var(n))

    def c(self, k): return Rat(self.R, self.R.const(k))

    def __getitem__(self, k):
        n = f"x{k}" if isinstance(k, int) else k
        return self.inp[n]


class AutoInputs(dict):
    """inputs default to their own variable"""
    def __init__(self, R): self.R = R
    def get(self, k, d=None): return self[k]
    def __missing__(self, k):
        r = Rat(self.R, self.R.add_var(k)); self[k] = r
        return r


def make_tus(obs, prelude, stub=False, flags=(), nsplit=8, tuflags=None, prefix=""):
    byt = {}
    for o in obs: byt.setdefault(o.tu, []).append(o)
    tus = []
    k = 0
    for tu, l in byt.items():
        n = max(1, min(nsplit, (len(l) + 7) // 8)) if tu == "main" else 1
        for j in range(n):
            part = l[j::n]
            if not part: continue
            text = prelude
            for o in part:
                o.fn = f"ob_{k}"; k += 1
                text += f'extern "C" void {o.fn}() {{ {o.body} }}\n'
            nm = f"{prefix}{tu}{j}"
            for o in part: o.tuname = nm
            tus.append(TU(nm, text, flags=list(flags) + list((tuflags or {}).get(tu, ())), stub=stub))
    return tus


_PF = None


_PL = None


def _call(i): return _PF(_PL[i])


def pmap(f, it, n=8):
    """map over forked workers (f may be a closure)"""
    global _PF, _PL
    it = list(it)
    if len(it) < 4: return [f(i) for i in it]
    import multiprocessing as mp
    _PF = f; _PL = it
    with mp.get_context("fork").Pool(min(n, len(it))) as p:
        return p.map(_call, range(len(it)), chunksize=1)


def loc_of(o, mod):
    return where(mod, o.anchor) if o.anchor else None


def discharge(check, obs, mods, p=None, hooks=None, prefix_hooks=(), ring_names=(), evalopts=None):
    for o in obs:
        mod = mods[o.tuname]
        loc = None
        try:
            I, outs = analyse(mod, o.fn, hooks=hooks, prefix_hooks=prefix_hooks)
        except absint.Endless:
            check.ob(o.key, False, "does not terminate", loc_of(o, mod)); continue
        except AnalysisError as e:
            raise Broken(f"obligation {o.key}: {e}")
        check.absorb(I)
        one(check, o, mod, I, outs, p, ring_names, evalopts or {})


BADEV = ("oob-read", "oob-write", "null-deref", "undef-deref", "undef-branch", "unreachable", "div-by-zero", "endless-recursion")


def feasible(R, assign):
    """assumptions that certainly have a solution: signs of distinct single variables, or of one linear form"""
    ks = []
    for k, v in assign.items():
        if k[0] != "sgn": return False
        ks.append(dict(k[1]))
    def linear(q): return all(bin(m).count("1") <= 1 and (m == 0 or (m.bit_length() - 1) % BITS == 0) for m in q)
    if not all(linear(q) for q in ks): return False
    if len(ks) == 1: return True
    vs = [max(q) for q in ks]
    return all(len(q) == 1 for q in ks) and len(set(vs)) == len(vs)


def one(check, o, mod, I, outs, p, ring_names, evalopts):
    if o.custom:
        o.custom(check, o, mod, I, outs); return
    strata = o.strata or [("generic", None)]
    for sname, sub in strata:
        key = o.key if sname == "generic" else f"{o.key}[{sname}]"
        st = [{}]; bad = None; n = 0
        while st and bad is None:
            assign = st.pop(); n += 1
            if n > 256: raise Broken(f"obligation {key}: too many undecided guards")
            try: bad, R = one_case(check, o, I, outs, p, ring_names, dict(evalopts), sub, assign, key)
            except NeedSplit as s:
                for v in ((1, -1) if s.key[0] == "sgn" else (True, False)):
                    b = dict(assign); b[s.key] = v; st.append(b)
                continue
            if bad and assign and not feasible(R, assign):
                raise Broken(f"obligation {key}: undecided guard assumptions {list(assign)[:3]} ({bad})")
            if bad and assign: bad += "  (for inputs where " + ", ".join(f"{R.show(dict(k[1]))} {'>' if v > 0 else '<'} 0" for k, v in assign.items()) + ")"
        check.ob(key, bad is None, bad or f"proved for all inputs ({len(outs)} outputs)", loc_of(o, mod) if bad else None,
                 sample=f"{key}: {o.body.strip()[:160]}" if bad is None and len(check.samples) < 6 else None)


def one_case(check, o, I, outs, p, ring_names, evalopts, sub, assign, key):
    R = Ring(ring_names, p)
    env = Env(R, ())
    env.inp = AutoInputs(R)
    if sub:
        for k, v in sub(env).items(): env.inp[f"x{k}" if isinstance(k, int) else k] = v
    R.pos = set(o.pos)
    e = Eval(R, env.inp, generic=o.generic, assign=assign, **evalopts)
    env.e = e
    bad = None
    try:
        thrown = [ev for ev in I.res.events if ev[0] == "throw" and e.bool(ev[1])]
        ub = [ev for ev in I.res.events if ev[0] in BADEV and e.bool(ev[1])]
        if o.expect_throw:
            if not thrown: bad = "an invalid argument is accepted (no exception on any path)"
            if ub: bad = f"{ub[0][0]} {ub[0][3]} at {fmtloc(ub[0][2])}"
        else:
            if thrown: bad = f"exception thrown at {fmtloc(thrown[0][2])}"
            elif ub: bad = f"{ub[0][0]} {ub[0][3]} at {fmtloc(ub[0][2])}"
            else:
                exp = o.oracle(env)
                for idx, want in exp.items():
                    if idx not in outs: bad = f"output {idx} is never produced"; break
                    d = e.pick(outs[idx])
                    if isinstance(d.v, Undef): bad = f"output {idx} is an uninitialised value"; break
                    got = e.value(d)
                    if not same(got, want):
                        bad = f"output {idx}: code computes {show(got)}, specification requires {show(want)}"; break
                else:
                    extra = [k for k in outs if k not in exp]
                    if extra: bad = f"unexpected outputs {extra}"
    except DivZero as z:
        bad = "division by an identically zero value"
    except AnalysisError as a:
        if "undefined" in str(a): bad = str(a)
        else: raise Broken(f"obligation {key}: {a}")
    return bad, R


def show(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def same(got, want):
    if isinstance(want, bool) and not isinstance(got, bool):
        if isinstance(got, Rat): return got.eq(1 if want else 0)
    if isinstance(got, bool): return got == bool(want)
    if isinstance(got, Rat): return got.eq(want)
    if isinstance(want, Rat) and isinstance(got, int): return want.eq(got)
    return got == want
