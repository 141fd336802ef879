"""P01-P03: final exponentiation, precomputation and Miller loops of the pairings, decided on the IR of the library's pairing
classes (reached through pairing_policy) instantiated over mock curves whose field elements are exact symbolic scalars and whose
target-group elements are known by their logarithm."""
import os, random
from math import gcd
from core import *
from harn import *
from poly import Ring, Rat, Eval
import vf
from groups import run
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PA = "nil/crypto3/algebra/pairing/"
CUR = {  # name: curve type, k, p, r, coordinate weight, kind, loop count, negative
    "bls12_381": dict(t="bls12<381>", h="bls12", k=12, p=0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab, r=0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001, W=2, kind="j", loop=0xd201000000010000, neg=True, c=3, bits=381),
    "mnt4_298": dict(t="mnt4<298>", h="mnt4", k=4, p=475922286169261325753349249653048451545124879242694725395555128576210262817955800483758081, r=475922286169261325753349249653048451545124878552823515553267735739164647307408490559963137, W=1, kind="m", neg=False, c=1, bits=298),
    "mnt6_298": dict(t="mnt6<298>", h="mnt6", k=6, p=475922286169261325753349249653048451545124878552823515553267735739164647307408490559963137, r=475922286169261325753349249653048451545124879242694725395555128576210262817955800483758081, W=1, kind="m", neg=True, c=1, bits=298),
    "edwards_183": dict(t="edwards<183>", h="edwards", k=6, p=6210044120409721004947206240885978274523751269793792001, r=1552511030102430251236801561344621993261920897571225601, W=1, kind="e", neg=False, c=1, bits=183),
}
CUR["mnt4_298"]["loop"] = CUR["mnt4_298"]["p"] - CUR["mnt4_298"]["r"]          # t - 1 = p - r
CUR["mnt6_298"]["loop"] = CUR["mnt6_298"]["r"] - CUR["mnt6_298"]["p"]          # |t - 1|
CUR["edwards_183"]["loop"] = None
U1, U2, AT, BT, TW = 131072, 17179869184, 1009, 2003, 131072      # powers of two: the compiler folds their reciprocals exactly
M61 = (1 << 61) - 1


def PRE(h): return f'''
#include <pmock.hpp>
#include <nil/crypto3/algebra/pairing/{h}.hpp>
using namespace nil::crypto3::algebra;
typedef pairing::pairing_policy<curves::VP_CURVE> PP; typedef curves::VP_CURVE CV;
typedef vp::Q2 Q; typedef typename CV::gt_type::value_type GT;
'''


FILES = {"j": {"g1": "forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g1.hpp", "g2": "forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp", "ml": "forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp", "dml": "forms/short_weierstrass/jacobian_with_a4_0/ate_double_miller_loop.hpp", "fe": "forms/short_weierstrass/jacobian_with_a4_0/final_exponentiation.hpp"}}


def anc(cn, what):
    d = CUR[cn]
    if d["kind"] == "j": f = FILES["j"][what]
    elif d["kind"] == "m" and what in ("g1", "g2"): f = f"forms/short_weierstrass/projective/ate_precompute_{what}.hpp"
    else: f = {"mnt4_298": "mnt4/298/", "mnt6_298": "mnt6/298/", "edwards_183": "edwards/183/"}[cn] + {"g1": "ate_precompute_g1.hpp", "g2": "ate_precompute_g2.hpp", "ml": "ate_miller_loop.hpp", "dml": "ate_double_miller_loop.hpp", "fe": "final_exponentiation.hpp"}[what]
    return "process@" + PA + f


def h_big(I, st, a, loc, name):
    from fractions import Fraction
    import absint
    n = absint.cint(I, st, a[1], "size"); w = I.load(st, a[0], n, loc)
    if w.leaf and isinstance(w.v, Undef): return absint.UNDEF
    v = vf.const_of(w)
    if v is None: raise AnalysisError("a power with a symbolic exponent")
    return absint.leaf(Fraction(v))


BADEV = ("oob-read", "oob-write", "null-deref", "undef-deref", "undef-branch", "unreachable", "div-by-zero", "endless-recursion")


class Res:
    """the outputs of one analysed body, evaluated in a ring"""
    def __init__(self, I, outs, R, inp):
        e = Eval(R, inp); self.bad = None
        for ev in I.res.events:
            if ev[0] == "throw" and e.bool(ev[1]): self.bad = "exception thrown"
            if ev[0] in BADEV and e.bool(ev[1]): self.bad = f"{ev[0]} {ev[3]} at {fmtloc(ev[2])}"
        self.e = e; self.outs = outs

    def __getitem__(self, k):
        d = self.e.pick(self.outs[k])
        if isinstance(d.v, Undef): raise AnalysisError("undefined value as output %d" % k)
        return self.e.value(d)

    def size(self, k):
        v = self[k]; return v if isinstance(v, int) else int(v.n.get(0, 0))


class Rel:
    """a custom obligation: rel(get, env) -> None or the violation text"""
    def __init__(self, envs, rel): self.envs = envs; self.rel = rel

    def __call__(self, check, o, mod, I, outs):
        for name, mk in self.envs:
            R, inp, extra = mk()
            try:
                r = Res(I, outs, R, inp)
                bad = r.bad or self.rel(r, R, inp, extra)
            except KeyError as k: bad = f"output {k} is never produced"
            except DivZero: bad = "division by zero"
            check.ob(f"{o.key}[{name}]", bad is None, bad or "holds", loc_of(o, mod) if bad else None)


def mkob(cn, key, body, tu, what, rel=None, oracle=None, loop=None, neg=False, real=False, strata=None):
    d = CUR[cn]; o = Ob(f"{cn}/{key}", body, oracle, anchor=anc(cn, what), tu=f"{cn}-{tu}", custom=rel, strata=strata)
    H = os.path.join(ROOT, "harness")
    o.fl = (["-I" + os.path.join(H, "pairparams")] if not real else []) + ["-I" + os.path.join(H, "pairmock"), f"-DVP_CURVE={d['t']}", f"-DVP_LOOP={loop or 0}u", f"-DVP_NEG={'true' if neg else 'false'}"]
    o.h = d["h"]; o.hooks = {"vd_big": h_big}
    return o


def go(c, obs):
    tuf = {o.tu: o.fl for o in obs}
    groups = {}
    for o in obs: groups.setdefault(o.h, []).append(o)
    for h, l in groups.items(): run(c, l, PRE(h), tuflags=tuf, prefix=h)


# ---------------------------------------------------------------- P01
def P01(c):
    obs = []
    for cn, d in CUR.items():
        k, p, r = d["k"], d["p"], d["r"]; N = p ** k - 1
        phi = {12: p ** 4 - p ** 2 + 1, 4: p ** 2 + 1, 6: p ** 2 - p + 1}[k]
        def mk(p=p):
            R = Ring([]); inp = AutoInputs(R); inp["x920"] = Rat(R, R.const(p)); inp["x0"] = Rat(R, R.const(1)); return R, inp, None
        def rel(g, R, inp, ex, N=N, r=r, d=d, phi=phi):
            def num(i):
                v = g[i].n; return v.get(0, 0) if all(m == 0 for m in v) else None
            E = num(0)
            if E is None or E != int(E): return f"the result is not a power of the argument: {g[0]}"
            for i in sorted(g.outs):
                if i >= 1000 and int(num(i)) % (N // phi): return f"a cyclotomic operation is applied to an element outside the cyclotomic subgroup (power {i - 1000} of the sequence)"
            E = int(E) % N; base = N // r
            if E % base: return "the exponent is not a multiple of (p^k - 1)/r: the result need not have order r"
            m = E // base % r
            if gcd(m, r) != 1: return "the exponent is a multiple of p^k - 1: every pairing collapses to one"
            if m != d["c"]: return f"the exponent is {m} * (p^k - 1)/r; specification requires {d['c']} * (p^k - 1)/r"
        obs.append(mkob(cn, "final_exponentiation", "GT e = GT::mk(vd_in(0)); GT r = PP::final_exponentiation::process(e); vd_out(0, r.lg); vd_out(1, e.lg);", "fe", "fe", Rel([("exact", mk)], rel), real=True))
        obs.append(mkob(cn, "final_exponentiation(one)", "vd_out(0, PP::final_exponentiation::process(GT::one()).lg);", "fe", "fe", Rel([("exact", mk)], lambda g, R, inp, ex: None if g[0].eq(0) else f"one is mapped to exponent {g[0]}"), real=True))
    go(c, obs)


# ---------------------------------------------------------------- P02
LOOPS = [1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 22, 27, 37, 45, 91, 0x7ff, 0xfff]


def bits(n): return [int(b) for b in bin(n)[3:]]


def sw_envs(W, deep):
    """points on y^2 = x^3 + a x + b: generic (x free, y^2 reduced), and random points modulo 2^61 - 1 (identity testing)"""
    a = AT if W == 1 else 0
    def sym():
        R = Ring(["x0", "x1", "x2"], M61); inp = AutoInputs(R)
        x = R.var("x0"); R.rule("x1", 2, R.add(R.add(R.mul(R.mul(x, x), x), R.scale(x, a)), R.const(BT)))
        return R, inp, (inp["x0"], inp["x1"])
    def num(seed):
        def mk():
            rnd = random.Random(seed); R = Ring([], M61); inp = AutoInputs(R)
            while True:
                x = rnd.randrange(M61); rhs = (x ** 3 + a * x + BT) % M61; y = pow(rhs, (M61 + 1) // 4, M61)
                if y and y * y % M61 == rhs: break
            for i, v in ((0, x), (1, y), (2, rnd.randrange(1, M61))): inp[f"x{i}"] = Rat(R, R.const(v))
            return R, inp, (inp["x0"], inp["x1"])
        return mk
    return ([] if deep else [("every point", sym)]) + [(f"random point {i}", num(1000 + i)) for i in range(3)]


def sw_ops(a):
    def slope(P, Q):
        if P is Q: return (P[0] * P[0] * 3 + a) / (P[1] * 2)
        return (P[1] - Q[1]) / (P[0] - Q[0])
    def add(P, Q):
        l = slope(P, Q); x = l * l - P[0] - Q[0]; return (x, l * (P[0] - x) - P[1])
    return slope, add


def g2_obs(cn, loops, neg=False, real=False):
    d = CUR[cn]; kind = d["kind"]; obs = []
    for L in loops:
        n = len(bits(L)); ones = sum(bits(L)); deep = L > 7 or real
        if kind == "j":
            ex = "vi_out(0, r.coeffs.size()); vd_out(1, r.QX.data); vd_out(2, r.QY.data); for (std::size_t i = 0; i < r.coeffs.size(); ++i) { vd_out(10 + 3 * i, r.coeffs[i].ell_0.data); vd_out(11 + 3 * i, r.coeffs[i].ell_VW.data); vd_out(12 + 3 * i, r.coeffs[i].ell_VV.data); }"
        elif kind == "m":
            ex = "vi_out(0, r.dbl_coeffs.size()); vi_out(6, r.add_coeffs.size()); vd_out(1, r.QX.data); vd_out(2, r.QY.data); vd_out(3, r.QY2.data); vd_out(4, r.QX_over_twist.data); vd_out(5, r.QY_over_twist.data); for (std::size_t i = 0; i < r.dbl_coeffs.size(); ++i) { vd_out(10 + 4 * i, r.dbl_coeffs[i].c_H.data); vd_out(11 + 4 * i, r.dbl_coeffs[i].c_4C.data); vd_out(12 + 4 * i, r.dbl_coeffs[i].c_J.data); vd_out(13 + 4 * i, r.dbl_coeffs[i].c_L.data); } for (std::size_t i = 0; i < r.add_coeffs.size(); ++i) { vd_out(2010 + 2 * i, r.add_coeffs[i].c_L1.data); vd_out(2011 + 2 * i, r.add_coeffs[i].c_RZ.data); }"
        else:
            ex = "vi_out(0, r.size()); for (std::size_t i = 0; i < r.size(); ++i) { vd_out(10 + 3 * i, r[i].c_ZZ.data); vd_out(11 + 3 * i, r[i].c_XY.data); vd_out(12 + 3 * i, r[i].c_XZ.data); }"
        body = f"auto r = PP::precompute_g2::process(vp::pt<Q, {d['W']}>(0)); PP::g2_precomputed_type &t = r; (void)t; {ex}"
        def rel(g, R, inp, Q, L=L, n=n, ones=ones, kind=kind):
            def C(v): return Rat(R, R.const(v))
            def line(T, S, s0, VW, VV, what):     # s0 = VW (slope x - y), VV = slope VW
                l = slope(T, S)
                if VW.is_zero(): return f"{what}: the coefficient of the ordinate vanishes"
                if not VV.eq(l * VW): return f"{what}: the coefficient of the abscissa is not the slope"
                if s0 is not None and not s0.eq((l * T[0] - T[1]) * VW): return f"{what}: the constant coefficient does not make the line pass through the point"
            if kind in "jm":
                slope, add = sw_ops(C(AT if kind == "m" else 0))
                if not (g[1].eq(Q[0]) and g[2].eq(Q[1])): return "the affine coordinates of the point are not recorded"
            T = Q; m = 1; j = ia = 0
            if kind == "m":
                if not g[3].eq(Q[1] * Q[1]): return "QY2 is not the square of the ordinate"
                if not (g[4].eq(Q[0] / C(TW)) and g[5].eq(Q[1] / C(TW))): return "the coordinates over the twist are wrong"
                if g.size(0) != n or g.size(6) != ones + (1 if neg else 0): return f"{g.size(0)} doubling and {g.size(6)} addition lines, specification requires {n} and {ones + (1 if neg else 0)}"
            elif g.size(0) != n + ones: return f"{g.size(0)} lines, specification requires {n + ones}"
            for b in bits(L):
                steps = [("d", T, T)] + ([("a", None, Q)] if b else [])
                for s, _, S in steps:
                    if s == "d": S = T
                    what = f"loop count {L}, {'tangent at' if s == 'd' else 'chord through Q and'} {m}Q"
                    if kind == "j":
                        bad = line(T, S, g[10 + 3 * j], g[11 + 3 * j] / C(TW), -g[12 + 3 * j], what); j += 1
                        T = add(T, S)
                    elif kind == "m" and s == "d":
                        bad = line(T, S, g[13 + 4 * j] - g[11 + 4 * j], g[10 + 4 * j], g[12 + 4 * j], what); j += 1
                        T = add(T, S)
                    elif kind == "m":
                        bad = line(T, S, None, g[2011 + 2 * ia], g[2010 + 2 * ia], what); ia += 1
                        T = add(T, S)
                    else:
                        a = C(TW); x0, y0 = Q; dd = (a * x0 * x0 + y0 * y0 - 1) / (x0 * x0 * y0 * y0)
                        z, xy, xz = g[10 + 3 * j], g[11 + 3 * j], g[12 + 3 * j]; j += 1
                        if s == "a": z = z / a
                        def phi(P): return z * (P[1] + 1) + xy * P[0] * P[1] + xz * P[0]
                        bad = None
                        if z.is_zero(): bad = f"{what}: the conic degenerates"
                        elif not phi(T).is_zero(): bad = f"{what}: the conic does not pass through {m}Q"
                        elif s == "a" and not phi(Q).is_zero(): bad = f"{what}: the conic does not pass through Q"
                        elif s == "d":
                            x, y = T; dx = y - dd * x * x * y; dy = -(a * x - dd * x * y * y)
                            if not (z * dy + xy * (x * dy + y * dx) + xz * dx).is_zero(): bad = f"{what}: the conic is not tangent to the curve"
                        k = dd * T[0] * S[0] * T[1] * S[1]
                        T = ((T[0] * S[1] + T[1] * S[0]) / (1 + k), (T[1] * S[1] - a * T[0] * S[0]) / (1 - k))
                    if bad: return bad
                    m = 2 * m if s == "d" else m + 1
            if kind == "m" and neg:
                if not g[2011 + 2 * ia].is_zero() or g[2010 + 2 * ia].is_zero(): return "the closing line of a negative loop count is not the vertical one"
        envs = sw_envs(d["W"], deep) if kind in "jm" else ed_envs(L > 3 or real)
        obs.append(mkob(cn, f"precompute_g2/{'real' if real else L}{'neg' if neg else ''}", body, f"g2-{'real' if real else L}{'n' if neg else ''}", "g2", Rel(envs, rel), loop=L, neg=neg, real=real))
    return obs


def ed_envs(deep):
    def sym():
        R = Ring(["x0", "x1", "x2"], M61); inp = AutoInputs(R); return R, inp, (inp["x0"], inp["x1"])
    def num(seed):
        def mk():
            rnd = random.Random(seed); R = Ring([], M61); inp = AutoInputs(R)
            for i in range(3): inp[f"x{i}"] = Rat(R, R.const(rnd.randrange(2, M61)))
            return R, inp, (inp["x0"], inp["x1"])
        return mk
    return ([] if deep else [("every point", sym)]) + [(f"random point {i}", num(1000 + i)) for i in range(3)]


def prec(kind, L, neg, side, name=""):
    """C++ building symbolic precomputed data; side 0/1 selects the input range"""
    n = len(bits(L)); ones = sum(bits(L)); o = 10000 * side
    if kind == "j":
        return (f"PP::g1_precomputed_type P{name}; P{name}.PX = SF::mk(vd_in({o})); P{name}.PY = SF::mk(vd_in({o + 1})); PP::g2_precomputed_type Q{name}; Q{name}.QX = Q::mk(vd_in({o + 2})); Q{name}.QY = Q::mk(vd_in({o + 3})); "
                f"for (int i = 0; i < {n + ones}; ++i) {{ typename PP::g2_precomputed_type::coeffs_type c; c.ell_0 = Q::mk(vd_in({o} + 1000 + 3 * i)); c.ell_VW = Q::mk(vd_in({o} + 1001 + 3 * i)); c.ell_VV = Q::mk(vd_in({o} + 1002 + 3 * i)); Q{name}.coeffs.push_back(c); }} ")
    if kind == "m":
        return (f"PP::g1_precomputed_type P{name}; P{name}.PX = SF::mk(vd_in({o})); P{name}.PY = SF::mk(vd_in({o + 1})); P{name}.PX_twist = Q::mk(vd_in({o + 2})); P{name}.PY_twist = Q::mk(vd_in({o + 3})); PP::g2_precomputed_type Q{name}; Q{name}.QX = Q::mk(vd_in({o + 4})); Q{name}.QY = Q::mk(vd_in({o + 5})); Q{name}.QY2 = Q::mk(vd_in({o + 6})); Q{name}.QX_over_twist = Q::mk(vd_in({o + 7})); Q{name}.QY_over_twist = Q::mk(vd_in({o + 8})); "
                f"for (int i = 0; i < {n}; ++i) {{ typename PP::g2_precomputed_type::dbl_coeffs_type c; c.c_H = Q::mk(vd_in({o} + 1000 + 4 * i)); c.c_4C = Q::mk(vd_in({o} + 1001 + 4 * i)); c.c_J = Q::mk(vd_in({o} + 1002 + 4 * i)); c.c_L = Q::mk(vd_in({o} + 1003 + 4 * i)); Q{name}.dbl_coeffs.push_back(c); }} "
                f"for (int i = 0; i < {ones + (1 if neg else 0)}; ++i) {{ typename PP::g2_precomputed_type::add_coeffs_type c; c.c_L1 = Q::mk(vd_in({o} + 5000 + 2 * i)); c.c_RZ = Q::mk(vd_in({o} + 5001 + 2 * i)); Q{name}.add_coeffs.push_back(c); }} ")
    return (f"PP::g1_precomputed_type P{name}; P{name}.P_XY = SF::mk(vd_in({o})); P{name}.P_XZ = SF::mk(vd_in({o + 1})); P{name}.P_ZZplusYZ = SF::mk(vd_in({o + 2})); PP::g2_precomputed_type Q{name}; "
            f"for (int i = 0; i < {n + ones}; ++i) {{ typename PP::g2_precomputed_type::value_type c; c.c_ZZ = Q::mk(vd_in({o} + 1000 + 3 * i)); c.c_XY = Q::mk(vd_in({o} + 1001 + 3 * i)); c.c_XZ = Q::mk(vd_in({o} + 1002 + 3 * i)); Q{name}.push_back(c); }} ")


def loop_log(kind, L, neg, side, v):
    o = 10000 * side; W = lambda i: v[900 + i]; f = v[900] * 0; j = ia = 0
    for b in bits(L):
        f = f * 2
        for s in ("d", "a")[:1 + b]:
            if kind == "j":
                f = f + W(4) * v[o + 1000 + 3 * j] + W(0) * v[o + 1] * v[o + 1001 + 3 * j] + W(5) * v[o] * v[o + 1002 + 3 * j]; j += 1
            elif kind == "m" and s == "d":
                H, C4, J, Lc = (v[o + 1000 + 4 * j + q] for q in range(4)); j += 1
                f = f + W(0) * (Lc - C4 - J * v[o + 2]) + W(1) * H * v[o + 3]
            elif kind == "m":
                L1, RZ = v[o + 5000 + 2 * ia], v[o + 5001 + 2 * ia]; ia += 1
                f = f + W(0) * RZ * v[o + 3] - W(1) * (v[o + 8] * RZ + (v[o] - v[o + 7]) * L1)
            else:
                z, xy, xz = (v[o + 1000 + 3 * j + q] for q in range(3)); j += 1
                A, B = v[o] * xy + v[o + 1] * xz, v[o + 2] * z
                f = f + (W(0) * A + W(1) * B if s == "d" else W(0) * B + W(1) * A)
    if neg:
        if kind == "m":
            L1, RZ = v[o + 5000 + 2 * ia], v[o + 5001 + 2 * ia]
            f = f + W(0) * RZ * v[o + 3] - W(1) * (v[o + 8] * RZ + (v[o] - v[o + 7]) * L1)
        f = -f
    return f


def cases():
    for cn, d in CUR.items():
        for L in LOOPS: yield cn, d, L, False, False
        if d["kind"] != "e":
            for L in (1, 2, 3, 5, 6, 13): yield cn, d, L, True, False
        L = d["loop"] or 0xE841DEEC0A9E39280000003
        yield cn, d, L, d["neg"], True


def P02(c):
    obs = []
    for cn, d in CUR.items():
        k = d["kind"]; W = d["W"]
        if k == "j": out = "vd_out(0, r.PX.data); vd_out(1, r.PY.data);"; want = lambda v: {0: v[0], 1: v[1]}; zero = lambda v: {0: v.c(0), 1: v.c(0)}
        elif k == "m": out = "vd_out(0, r.PX.data); vd_out(1, r.PY.data); vd_out(2, r.PX_twist.data); vd_out(3, r.PY_twist.data);"; want = lambda v: {0: v[0], 1: v[1], 2: v[0] * TW, 3: v[1] * TW}; zero = lambda v: {i: v.c(0) for i in range(4)}
        else: out = "vd_out(0, r.P_XY.data); vd_out(1, r.P_XZ.data); vd_out(2, r.P_ZZplusYZ.data);"; want = lambda v: {0: v[0] * v[1], 1: v[0], 2: v[1] + 1}; zero = lambda v: {0: v.c(0), 1: v.c(0), 2: v.c(2)}
        obs.append(mkob(cn, "precompute_g1", f"PP::g1_precomputed_type r = PP::precompute_g1::process(vp::pt<SF, {W}>(0)); {out}", "g1", "g1", oracle=want, loop=5))
        obs.append(mkob(cn, "precompute_g1(identity)", f"PP::g1_precomputed_type r = PP::precompute_g1::process(typename CV::template g1_type<>::value_type()); {out}", "g1", "g1", oracle=zero, loop=5))
        obs += g2_obs(cn, LOOPS)
        if k != "e": obs += g2_obs(cn, (1, 2, 3, 5, 6, 13), neg=True)
        obs += g2_obs(cn, [d["loop"] or 0xE841DEEC0A9E39280000003], neg=d["neg"], real=True)
    for cn, d, L, neg, real in cases():
        obs.append(mkob(cn, f"miller_loop/{'real' if real else L}{'neg' if neg else ''}", prec(d["kind"], L, neg, 1) + "vd_out(0, PP::miller_loop::process(P, Q).lg);".replace("Q)", "Q)"), f"ml-{'real' if real else L}{'n' if neg else ''}", "ml",
                        oracle=lambda v, d=d, L=L, neg=neg: {0: loop_log(d["kind"], L, neg, 1, v)}, loop=L, neg=neg, real=real))
    go(c, obs)


# ---------------------------------------------------------------- P03
def P03(c):
    obs = []
    for cn, d, L, neg, real in cases():
        obs.append(mkob(cn, f"double_miller_loop/{'real' if real else L}{'neg' if neg else ''}", prec(d["kind"], L, neg, 1, "a") + prec(d["kind"], L, neg, 2, "b") + "vd_out(0, PP::double_miller_loop::process(Pa, Qa, Pb, Qb).lg); vd_out(1, PP::miller_loop::process(Pa, Qa).lg); vd_out(2, PP::miller_loop::process(Pb, Qb).lg);", f"dm-{'real' if real else L}{'n' if neg else ''}", "dml",
                        oracle=lambda v, d=d, L=L, neg=neg: {i: loop_log(d["kind"], L, neg, 1, v) * (i != 2) + loop_log(d["kind"], L, neg, 2, v) * (i != 1) for i in range(3)}, loop=L, neg=neg, real=real))
    go(c, obs)


# ---------------------------------------------------------------- P05
def P05(c):
    obs = []
    T = {"j": {"PP::g1_precomputed_type": ["PX", "PY"], "typename PP::g2_precomputed_type::coeffs_type": ["ell_0", "ell_VW", "ell_VV"], "PP::g2_precomputed_type": ["QX", "QY", ("coeffs", ["ell_0", "ell_VW", "ell_VV"])]},
         "m": {"PP::g1_precomputed_type": ["PX", "PY", "PX_twist", "PY_twist"], "typename PP::g2_precomputed_type::dbl_coeffs_type": ["c_H", "c_4C", "c_J", "c_L"], "typename PP::g2_precomputed_type::add_coeffs_type": ["c_L1", "c_RZ"],
               "PP::g2_precomputed_type": ["QX", "QY", "QY2", "QX_over_twist", "QY_over_twist", ("dbl_coeffs", ["c_H", "c_4C", "c_J", "c_L"]), ("add_coeffs", ["c_L1", "c_RZ"])]},
         "e": {"PP::g1_precomputed_type": ["P_XY", "P_XZ", "P_ZZplusYZ"], "typename PP::g2_precomputed_type::value_type": ["c_ZZ", "c_XY", "c_XZ"], "PP::g2_precomputed_type": [("", ["c_ZZ", "c_XY", "c_XZ"])]}}
    for cn, d in CUR.items():
        for ti, (t, fs) in enumerate(T[d["kind"]].items()):
            def fill(v, val=lambda k: k + 3, sizes=None):
                b = ""; k = 0
                for q, f in enumerate(fs):
                    if isinstance(f, str):
                        b += f"{v}.{f} = decltype({v}.{f})({val(k)}); "; k += 1
                    else:
                        vec = f"{v}.{f[0]}" if f[0] else v
                        for j in range(2):
                            b += "{ std::decay_t<decltype(%s[0])> c; " % vec
                            for m in f[1]: b += f"c.{m} = decltype(c.{m})({val(k)}); "; k += 1
                            if (sizes or {}).get(q, 2) > j: b += f"{vec}.push_back(c); "
                            b += "} "
                        if (sizes or {}).get(q, 2) > 2: b += f"{vec}.push_back({vec}[0]); "
                return b, k
            _, n = fill("a")
            def eq(key, va, vb, want, sizes=None): obs.append(mkob(cn, f"equality/{ti}/{key}", f"{t} a, b; {fill('a', va)[0]} {fill('b', vb, sizes)[0]} vi_out(0, a == b); vi_out(1, b == a);", "eq", "g2", oracle=lambda v, w=want: {0: w, 1: w}, loop=5))
            bases = {"distinct": lambda k: k + 3, "zero": lambda k: 0, "one": lambda k: 1}
            for bn, f0 in bases.items():
                eq(f"{bn}/same", f0, f0, True)
                for i in range(n):
                    eq(f"{bn}/member{i}", f0, lambda k: f0(k) + (100 if k == i else 0), False)
                    if n > 1: eq(f"{bn}/all but member{i}", f0, lambda k: f0(k) + (100 if k != i else 0), False)
                    if bn == "distinct":
                        eq(f"{bn}/negated{i}", f0, lambda k: f0(k) * (-1 if k == i else 1), False)
                        if i: eq(f"{bn}/swapped{i}", f0, lambda k: f0(i - 1 if k == i else i if k == i - 1 else k), False)
                for q, f in enumerate(fs):
                    if not isinstance(f, str):
                        for sz in (0, 1, 3): eq(f"{bn}/length{q}-{sz}", f0, f0, False, {q: sz})
    go(c, obs)


PROPS = {"P05": P05, "P01": P01, "P02": P02, "P03": P03}
