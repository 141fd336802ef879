"""H01: the simplified SWU map and the isogeny maps of hash-to-curve, decided on LLVM IR over a mock suite."""
import os, random
from core import *
from harn import *
from poly import Ring, Rat, Eval, DivZero, NeedSplit
import absint
from groups import run
from pairing import h_big
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HD = "nil/crypto3/algebra/curves/detail/h2c/"
P381 = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
# the isogenous curves y^2 = x^3 + A x + B (RFC 9380, 8.8.1 and 8.8.2), their images y^2 = x^3 + C, the leading coefficients
ISO = {1: dict(A=(0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d, 0), B=(0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0, 0), C=(4, 0), dx=11, dy=15,
               lx=0x6e08c248e260e70bd1e962381edee3d31d79d7e22c837bc23c0bf1bc24c6b68c24b1b80b64d391fa9c8ba2e8ba2d229, ly=0x15e6be4e990f03ce4ea50b3b42df2eb5cb181d8f84965a3957add4fa95af01b2b665027efec01c7704b456be69c8b604,
               ker=[0x133341fb0962a34cb0504a9c4fada0a5090d38679b4c040d5d1c3afb023a3409fcc0815fea66d8b02bbef9c8b5a66e07, 0x264908af037bcede00d054cf5d4775e83eb6cf63c76b969f8ed174fb59fcff78d201f46f6cfc4ed6552e59ce75177b0, 0x1335c502c1f54c49aceea65e87fd7203ba0f626f305fc0cfd606a5dae9f3c8e81a4b3b69600129fabd307c69bf319d39, 0x94440f65f408a6e930e16e3e92dd17bf60d6e9679a8d3d58593de55ac23703042d609537eb3549aac234d896ca82944, 0x4afe09d5cf4956a23b6b71f59d2b3407b415a774b7be81bbb6fa99cbc798e0ac98ba725a5bc328016b1c268b4766e85]),
       2: dict(A=(0, 240), B=(1012, 1012), C=(4, 4), dx=3, dy=3,
               lx=0x171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1, ly=0x124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10, ker=None)}
PRE = f"#include <h2cmock.hpp>\n#include <{HD}h2c_m2c.hpp>\nusing namespace nil::crypto3::algebra::curves;\n" + "typedef bls12_381::g1_type<> G1; typedef bls12_381::g2_type<> G2; typedef h2::HP<1> P1; typedef h2::HP<2> P2; typedef h2::HF<1> F1; typedef h2::HF<2> F2;\ntemplate<class P> void outp(int k, const P &p) { vd_out(k, p.X.v); vd_out(k + 1, p.Y.v); vd_out(k + 2, p.Z.v); }\n"


def fun(op): return lambda I, st, a, loc, name: absint.leaf(absint.term(op, None, absint.as_term(None, a[0])))


HK = {"vd_big": h_big, "vd_leg": fun("h2leg"), "vd_root": fun("h2root"), "vd_sign": fun("h2sign"), "vd_inv0": fun("h2inv0")}
BADEV = ("oob-read", "oob-write", "null-deref", "undef-deref", "undef-branch", "unreachable", "div-by-zero", "endless-recursion")


class Bad(Exception): pass


def inv0(e, t):
    a = e.term(t.args[0]); return Rat(e.R, e.R.const(0)) if a.is_zero() else a.inv()


def outputs(I, outs, e, ks):
    for ev in I.res.events:
        if ev[0] == "throw" and e.bool(ev[1]): raise Bad("exception thrown")
        if ev[0] in BADEV and e.bool(ev[1]): raise Bad(f"{ev[0]} {ev[3]} at {fmtloc(ev[2])}")
    r = []
    for k in ks:
        d = e.pick(outs[k])
        if isinstance(d.v, Undef): raise Bad("undefined value returned")
        r.append(e.value(d))
    return r


class SSWU:
    def __call__(self, c, o, mod, I, outs):
        for case in ("generic", "u=0", "Z*u^2=-1"):
            for sq in ((True, False) if case == "generic" else (True,)):
                for su in (0, 1):
                    for ss in (0, 1):
                        key = f"{o.key}[{case},{'square' if sq else 'non-square'},sgn0(u)={su},sgn0(root)={ss}]"; bad = None
                        try: self.case(I, outs, case, sq, su, ss)
                        except Bad as b: bad = str(b)
                        except DivZero: bad = "division by zero"
                        except AnalysisError as a:
                            if "undefined" not in str(a): raise
                            bad = str(a)
                        except KeyError as k: bad = f"output {k} is never produced"
                        except NeedSplit as n: raise Broken(f"{key}: undecided guard {n.key}")
                        c.ob(key, bad is None, bad or "proved for all u, Z, A, B", loc_of(o, mod) if bad else None, sample=key if bad is None and len(c.samples) < 4 else None)

    def case(self, I, outs, case, sq, su, ss):
        R = Ring(["x0", "x30", "x31", "x32", "r"], P381); v = lambda n: Rat(R, R.var(n))
        u, Z, A, B, r = (v(n) for n in R.names[:5]); inp = {"x0": u, "x30": Z, "x31": A, "x32": B}
        if case == "u=0": inp["x0"] = u = Rat(R, R.const(0))
        if case == "Z*u^2=-1": inp["x30"] = Z = (u * u).inv() * -1
        den = Z * Z * u * u * u * u + Z * u * u
        x1 = B / (Z * A) if den.is_zero() else (B / A) * -1 * (den.inv() + 1)
        g = lambda x: x * x * x + A * x + B
        x2 = Z * u * u * x1; x = x1 if sq else x2; gx = g(x)
        def leg(e, t):
            a = e.term(t.args[0])
            if a.eq(g(x1)): s = sq
            elif a.eq(g(x2)) and case == "generic": s = not sq
            else: raise Bad(f"squareness of {a} is tested; specification tests g(x1)")
            return Rat(R, R.const(1 if s else -1))
        def root(e, t):
            a = e.term(t.args[0])
            if not a.eq(gx): raise Bad("the square root of a value other than the square one of g(x1), g(x2) is taken")
            return r
        def sign(e, t):
            a = e.term(t.args[0])
            if not u.is_zero() and a.eq(u): s = su
            elif not u.is_zero() and a.eq(u * -1): s = 1 - su
            elif u.is_zero() and a.is_zero(): s = 0
            elif a.eq(r): s = ss
            elif a.eq(r * -1): s = 1 - ss
            else: raise Bad(f"the sign of {a} is used; specification compares those of u and y")
            return Rat(R, R.const(s))
        if u.is_zero(): su = 0
        e = Eval(R, inp, sub={"h2leg": leg, "h2root": root, "h2sign": sign, "h2inv0": inv0})
        X, Y, W = outputs(I, outs, e, (0, 1, 2))
        want = r if su == ss else r * -1
        if not W.eq(1): raise Bad(f"Z coordinate {W} of an affine result")
        if not X.eq(x): raise Bad(f"x = {show(X)}; specification requires {show(x)}")
        if not Y.eq(want): raise Bad(f"y = {show(Y)}; specification requires {show(want)} (sgn0(y) = sgn0(u))")
        if 3 in outs and not outputs(I, outs, e, (3,))[0].eq(u): raise Bad("the argument is modified")


class IsoMap:
    def __init__(self, d): self.d = d

    def ring(self, kernel):
        S = ISO[self.d]; R = Ring(["x0", "x1", "x930"], P381); im = R.var("x930")
        R.rule("x930", 2, R.const(-1))
        q = lambda ab: R.add(R.const(ab[0]), R.scale(im, ab[1]))
        if kernel:
            if self.d == 1:
                acc = R.const(0); xp = R.const(1)
                for k in S["ker"]: acc = R.add(acc, R.scale(xp, -k)); xp = R.mul(xp, R.var("x0"))
                R.rule("x0", 5, acc); x = R.var("x0")
            else: x = q((-6, 6))                                  # kernel: x = -6 (1 - i)
        else: x = R.var("x0")
        R.rule("x1", 2, R.add(R.add(R.mul(R.mul(x, x), x), R.mul(q(S["A"]), x)), q(S["B"])))
        inp = {"x0": Rat(R, x), "x1": Rat(R, R.var("x1")), "x2": Rat(R, R.const(1)), "x930": Rat(R, im), "x40": Rat(R, R.const(7)), "x41": Rat(R, R.const(9))}
        return R, inp, q

    def __call__(self, c, o, mod, I, outs):
        S = ISO[self.d]
        for case in ("generic", "leading", "kernel"):
            key = f"{o.key}[{case}]"; bad = None
            try:
                R, inp, q = self.ring(case == "kernel"); e = Eval(R, inp, sub={"h2inv0": inv0})
                X, Y, W = outputs(I, outs, e, (0, 1, 2))
                if case == "kernel":
                    if not W.is_zero(): bad = f"a point of the kernel is mapped to ({show(X)}, {show(Y)}), not to the point at infinity"
                elif not W.eq(1): bad = f"Z coordinate {W} of an affine result"
                elif case == "generic":
                    # Y^2 = X^3 + C by cross-multiplication
                    d = R.mul(R.mul(Y.n, Y.n), R.powr(X.d, 3)); rhs = R.mul(R.mul(Y.d, Y.d), R.add(R.powr(X.n, 3), R.mul(q(S["C"]), R.powr(X.d, 3))))
                    if R.sub(d, rhs): bad = "the image of a point is not on the target curve"
                else:
                    def lead(a, den, deg, yfac):
                        """leading coefficients of numerator and denominator of X or Y / y, monic denominator of the given degree"""
                        dv = {}
                        if not a.n: return "identically zero"
                        for part, p in (("n", a.n), ("d", a.d)):
                            best = None
                            for m, k in p.items():
                                ex = [(m >> (BITS * i)) & ((1 << BITS) - 1) for i in range(3)]
                                if part == "n" and yfac:
                                    if ex[1] != 1: return f"not y times a function of x"
                                elif ex[1]: return "the y coordinate enters the x coordinate"
                                if best is None or ex[0] > best: best = ex[0]
                            co = {}
                            for m, k in p.items():
                                if (m & ((1 << BITS) - 1)) == best: co[(m >> (2 * BITS)) & ((1 << BITS) - 1)] = k % P381
                            dv[part] = (best, co)
                        if dv["n"][0] - dv["d"][0] != deg: return f"degree {dv['n'][0]} over {dv['d'][0]}"
                        n = (dv["n"][1].get(0, 0), dv["n"][1].get(1, 0)); w = (dv["d"][1].get(0, 0), dv["d"][1].get(1, 0))
                        # n = den * w
                        if (n[0] - den * w[0]) % P381 or (n[1] - den * w[1]) % P381: return "another leading coefficient (an automorphism of the target is composed in)"
                    bad = lead(X, S["lx"], 1, False) and "x: " + lead(X, S["lx"], 1, False)
                    bad = bad or (lead(Y, S["ly"], 0, True) and "y: " + lead(Y, S["ly"], 0, True))
            except Bad as b: bad = str(b)
            except DivZero: bad = "division by zero"
            except AnalysisError as a:
                if "undefined" not in str(a): raise
                bad = str(a)
            except KeyError as k: bad = f"output {k} is never produced"
            except NeedSplit as n: raise Broken(f"{key}: undecided guard {n.key}")
            c.ob(key, bad is None, bad or "proved for every point of the isogenous curve", loc_of(o, mod) if bad else None, sample=key if bad is None and len(c.samples) < 6 else None)


class Num:
    """numbers a + b i modulo p, for the composed map"""
    @staticmethod
    def mul(a, b): return ((a[0] * b[0] - a[1] * b[1]) % P381, (a[0] * b[1] + a[1] * b[0]) % P381)
    @staticmethod
    def inv(a):
        n = pow(a[0] * a[0] + a[1] * a[1], -1, P381); return (a[0] * n % P381, -a[1] * n % P381)
    @staticmethod
    def pw(a, k):
        r = (1, 0)
        while k:
            if k & 1: r = Num.mul(r, a)
            a = Num.mul(a, a); k >>= 1
        return r
    @staticmethod
    def issq(a, d):
        n = a[0] if d == 1 else (a[0] * a[0] + a[1] * a[1]) % P381
        return pow(n, (P381 - 1) // 2, P381) <= 1
    @staticmethod
    def sqrt(a, d):
        if d == 1: return (pow(a[0], (P381 + 1) // 4, P381), 0)
        a1 = Num.pw(a, (P381 - 3) // 4); al = Num.mul(Num.mul(a1, a1), a); x0 = Num.mul(a1, a)
        if al == (P381 - 1, 0): return Num.mul((0, 1), x0)
        return Num.mul(Num.pw(((1 + al[0]) % P381, al[1]), (P381 - 1) // 2), x0)
    @staticmethod
    def sgn(a): return a[0] & 1 if a[0] else a[1] & 1


class MapToCurve:
    """map_to_curve(u) is the isogeny applied to the simplified SWU map, at random and special arguments"""
    def __init__(self, d): self.d = d

    def __call__(self, c, o, mod, I, outs):
        S = ISO[self.d]; rnd = random.Random(20 + self.d)
        Zc = (11, 0) if self.d == 1 else (-2 % P381, -1 % P381)
        us = [(0, 0), (1, 0), (P381 - 1, 0), (2, 0)] + [(rnd.randrange(P381), rnd.randrange(P381) if self.d == 2 else 0) for _ in range(6)]
        if self.d == 2: us += [(0, 1), (0, P381 - 1)]
        for n, u in enumerate(us):
            R = Ring(["x930"], P381); R.rule("x930", 2, R.const(-1)); im = R.var("x930")
            q = lambda ab: Rat(R, R.add(R.const(ab[0]), R.scale(im, ab[1])))
            def val(a):
                if not a.poly: a = Rat(R, a.n, R.const(1)) * q(Num.inv(pair(a.d)))
                return pair(a.n)
            def pair(pn): return (pn.get(0, 0) % P381, pn.get(1, 0) % P381)
            sub = {"h2leg": lambda e, t: q((1, 0)) if Num.issq(val(e.term(t.args[0])), self.d) else q((-1, 0)), "h2root": lambda e, t: q(Num.sqrt(val(e.term(t.args[0])), self.d)),
                   "h2sign": lambda e, t: q((Num.sgn(val(e.term(t.args[0]))), 0)), "h2inv0": lambda e, t: q((0, 0)) if val(e.term(t.args[0])) == (0, 0) else q(Num.inv(val(e.term(t.args[0]))))}
            inp = {"x0": q(u), "x30": q(Zc), "x31": q(S["A"]), "x32": q(S["B"]), "x930": Rat(R, im), "x40": q((7, 0)), "x41": q((9, 0))}
            bad = None
            try:
                e = Eval(R, inp, sub=sub); o6 = [val(x) for x in outputs(I, outs, e, range(6))]
                X, Y, W = o6[:3]
                if o6[:3] != o6[3:]: bad = "differs from the isogeny applied to the simplified SWU map"
                elif W == (1, 0):
                    l = Num.mul(Y, Y); r = Num.mul(Num.mul(X, X), X)
                    if (l[0] - r[0] - S["C"][0]) % P381 or (l[1] - r[1] - S["C"][1]) % P381: bad = "the result is not on the target curve"
            except Bad as b: bad = str(b)
            except DivZero: bad = "division by zero"
            except AnalysisError as a:
                if "undefined" not in str(a): raise
                bad = str(a)
            except NeedSplit as s: raise Broken(f"{o.key}: undecided guard {s.key}")
            c.ob(f"{o.key}[u{n}]", bad is None, bad or "holds", loc_of(o, mod) if bad else None)


def H01(c):
    obs = []
    for d in (1, 2):
        g, F, P = f"G{d}", f"F{d}", f"P{d}"
        obs.append(Ob(f"sswu/{g}", f"{F} u = {F}::mk(vd_in(0)); outp(0, detail::m2c_simple_swu<{g}>::process(u)); vd_out(3, u.v);", anchor=f"process@{HD}h2c_m2c.hpp", custom=SSWU(), tu="sswu"))
        obs.append(Ob(f"iso_map/{g}", f"{P} p({F}::mk(vd_in(0)), {F}::mk(vd_in(1)), {F}::one()); outp(0, detail::iso_map<{g}>::process(p));", anchor=f"process@{HD}h2c_iso_map.hpp", custom=IsoMap(d), tu=f"iso{d}"))
        obs.append(Ob(f"map_to_curve/{g}", f"{F} u = {F}::mk(vd_in(0)); outp(0, detail::map_to_curve<{g}>::process(u)); outp(3, detail::iso_map<{g}>::process(detail::m2c_simple_swu<{g}>::process({F}::mk(vd_in(0)))));", anchor=f"process@{HD}h2c_m2c.hpp", custom=MapToCurve(d), tu=f"map{d}"))
    for o in obs: o.hooks = HK
    run(c, obs, PRE, flags=("-UNDEBUG", "-fno-threadsafe-statics", "-I" + os.path.join(ROOT, "harness", "h2cmock")), prefix="h")


PROPS = {"H01": H01}
