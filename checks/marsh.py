"""M01, M02: serialisation of BLS12-381 points and of field elements.  The serialisers are analysed on symbolic octets and
numbers; the resulting closed forms (one decision diagram per output octet) are compared with the format at valuations that
cover both outcomes of every test."""
import os, random
from fractions import Fraction
from core import *
from harn import *
import absint
from absint import D, leaf, term, as_term, cint, fmtloc, Term, Undef, ATOMS
from groups import run
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PM = {1: 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab, 2: 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001, 3: (1 << 256) - 189}
P = PM[1]
MH = "nil/crypto3/algebra/curves/detail/marshalling.hpp"; BH = "nil/crypto3/algebra/marshalling.hpp"
BADEV = ("oob-read", "oob-write", "null-deref", "undef-deref", "undef-branch", "unreachable", "div-by-zero", "endless-recursion")


def f1(op): return lambda I, st, a, loc, name: leaf(term(op, None, as_term(None, a[0])))
def fi(op, intres):
    def h(I, st, a, loc, name):
        x = as_term(None, a[0])
        def g(i):
            if isinstance(i, Undef): return leaf(i)
            return leaf(term(op, 8 if intres else None, x, term("ic", 32, i & 0xffffffff)))
        return D.apply(None, g, a[1])
    return h
def h_bin(I, st, a, loc, name): return leaf(term("i.bin", 8, term("ic", 32, cint(I, st, a[0], "index"))))
def h_b2d(I, st, a, loc, name):
    def g(x):
        if isinstance(x, Undef): return leaf(x)
        return leaf(Fraction(x)) if isinstance(x, int) else leaf(term("b2d", None, x))
    return D.apply(None, g, a[0])
def f2(op): return lambda I, st, a, loc, name: leaf(term(op, None, as_term(None, a[0]), as_term(None, a[1])))
def h_sqrt2(I, st, a, loc, name): return leaf(term("sqrt2", None, as_term(None, a[0]), as_term(None, a[1]), term("ic", 32, cint(I, st, a[2], "index"))))


HK = {"vb_in": h_bin, "vb_dbl": h_b2d, "vb_byte": fi("i.byte", True), "vd_more": fi("more", False), "vd_red": fi("red", False), "vd_leg": f1("leg"), "vd_sqrt": f1("sqrt"), "vd_leg2": f2("leg2"), "vd_sqrt2": h_sqrt2, "vd_idiv": f2("idiv"), "vd_rem": f2("rem")}


# ---------------------------------------------------------------- arithmetic of the real fields
def mul2(a, b): return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)
def pw2(a, k):
    r = (1, 0)
    while k:
        if k & 1: r = mul2(r, a)
        a = mul2(a, a); k >>= 1
    return r
def leg1(a): return 1 if pow(a % P, (P - 1) // 2, P) <= 1 else -1
def leg2(a, b): return 1 if pow((a * a + b * b) % P, (P - 1) // 2, P) <= 1 else -1
def sqrt1(a): return pow(a % P, (P + 1) // 4, P)
def sqrt2(a, b):
    a = (a % P, b % P); a1 = pw2(a, (P - 3) // 4); al = mul2(mul2(a1, a1), a); x0 = mul2(a1, a)
    if al == (P - 1, 0): return mul2((0, 1), x0)
    return mul2(pw2(((1 + al[0]) % P, al[1]), (P - 1) // 2), x0)


class Val:
    """evaluation of the analyser's terms and decision diagrams at one valuation"""
    def __init__(self, octets, inp): self.o = octets; self.inp = inp; self.m = {}; self.am = {}

    def t(self, x):
        st = [x]
        while st:
            y = st[-1]
            if not isinstance(y, Term) or y.id in self.m: st.pop(); continue
            if y.op == "gate":
                v = self.pick(y.args[0])
                if isinstance(v, Term) and v.id not in self.m: st.append(v); continue
                self.m[y.id] = self.m[v.id] if isinstance(v, Term) else v; st.pop(); continue
            todo = [a for a in y.args if isinstance(a, Term) and a.id not in self.m]
            if todo: st.extend(todo); continue
            self.m[y.id] = self.op(y, [self.m[a.id] if isinstance(a, Term) else a for a in y.args]); st.pop()
        return self.m[x.id] if isinstance(x, Term) else x

    def op(self, y, A):
        o = y.op
        if o == "in": return self.inp[A[0]]
        if o in ("c", "ic"): return A[-1] if o == "ic" else A[0]
        if o == "add": return A[0] + A[1]
        if o == "sub": return A[0] - A[1]
        if o == "mul": return A[0] * A[1]
        if o == "neg": return -A[0]
        if o == "div": return Fraction(A[0]) / A[1]
        if o in ("b2d", "itof"): return A[0]
        if o == "i.bin":
            if A[0] >= len(self.o): raise Bad(f"octet {A[0]} of a shorter input is used")
            return self.o[A[0]]
        if o == "i.byte": return (int(A[0]) >> 8 * A[1]) & 255
        if o == "more": return 1 if int(A[0]) >> 8 * A[1] else 0
        if o == "red":
            x = Fraction(A[0]); m = PM[A[1]]; return x.numerator * pow(x.denominator, -1, m) % m
        if o == "leg": return leg1(self.fr(A[0]))
        if o == "leg2": return leg2(self.fr(A[0]), self.fr(A[1]))
        if o == "sqrt": return sqrt1(self.fr(A[0]))
        if o == "sqrt2": return sqrt2(self.fr(A[0]), self.fr(A[1]))[A[2]]
        if o == "idiv": return int(A[0]) // int(A[1])
        if o == "rem": return int(A[0]) % int(A[1])
        if o == "undef": raise Bad("an uninitialised value is used")
        if o == "i.sext":
            w = A[1]; v = A[0]; return (v - (1 << w) if v >> (w - 1) else v) & ((1 << y.p) - 1)
        if o == "i.ftoi": return int(A[0]) & ((1 << y.p) - 1)
        if o.startswith("i."):
            M = (1 << y.p) - 1; a = int(A[0]); k = o[2:]
            if k == "trunc": return a & M
            b = int(A[1]) if len(A) > 1 else 0
            sg = lambda v: v - (M + 1) if v >> (y.p - 1) else v
            r = {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "shl": lambda: a << b, "lshr": lambda: a >> b, "ashr": lambda: sg(a) >> b, "udiv": lambda: a // b, "urem": lambda: a % b}.get(k)
            if r: return r() & M
        raise AnalysisError(f"term {o}")

    def fr(self, x): x = Fraction(x); return x.numerator * pow(x.denominator, -1, P) % P

    def atom(self, var):
        r = self.am.get(var)
        if r is None:
            kind, p, args = ATOMS.l[var]; a, b = (self.t(q) for q in args[:2])
            if kind == "slt": s = 1 << (p - 1); a, b = (a ^ s), (b ^ s)
            if kind not in ("eq", "lt", "ult", "slt"): raise AnalysisError(f"test {kind}")
            r = self.am[var] = (a == b) if kind == "eq" else a < b
        return r

    def pick(self, d):
        while not d.leaf: d = d.hi if self.atom(d.var) else d.lo
        return d.v

    def value(self, d):
        v = self.pick(d)
        if isinstance(v, Undef): raise Bad("an uninitialised value is returned")
        return self.t(v)


class Bad(Exception): pass


class Table:
    """rows: (name, octets, inputs, expected) with expected a dict index -> value, or 'reject'"""
    def __init__(self, rows): self.rows = rows

    def __call__(self, c, o, mod, I, outs):
        for name, octs, inp, exp in self.rows:
            v = Val(octs, {"x901": PM[1], "x902": PM[2], "x903": PM[3], **inp}); bad = None
            try:
                thrown = [ev for ev in I.res.events if ev[0] == "throw" and v.pick(ev[1])]
                ub = [ev for ev in I.res.events if ev[0] in BADEV and v.pick(ev[1])]
                if exp == "reject":
                    if not thrown: bad = "an invalid encoding is accepted (no assertion fires)"
                elif thrown: bad = f"a valid argument is rejected at {fmtloc(thrown[0][2])}"
                elif ub: bad = f"{ub[0][0]} {ub[0][3]} at {fmtloc(ub[0][2])}"
                else:
                    for k, w in exp.items():
                        if k not in outs: bad = f"output {k} is never produced"; break
                        g = v.value(outs[k])
                        if g != w: bad = f"output {k}: {hex(int(g))}, the format requires {hex(int(w))}"; break
            except Bad as b: bad = str(b)
            except ZeroDivisionError: bad = "division by zero"
            c.ob(f"{o.key}[{name}]", bad is None, bad or "holds", loc_of(o, mod) if bad else None, sample=f"{o.key}[{name}]" if bad is None and len(c.samples) < 6 else None)


# ---------------------------------------------------------------- M01: ZCash format of points
def be(x, n): return [x >> 8 * (n - 1 - i) & 255 for i in range(n)]
def sign1(y): return y > (P - 1) // 2
def sign2(y): return sign1(y[0]) if y[1] == 0 else sign1(y[1])


def points1(rnd):
    r = []
    for x in [0, 4, 1 << 200, 5 << 8] + [rnd.randrange(P) for _ in range(4)] + [rnd.randrange(1 << 40)]:
        while leg1(x ** 3 + 4) < 0: x += 1
        y = sqrt1(x ** 3 + 4); r += [(x, y), (x, P - y)]
    return r


def points2(rnd):
    r = []
    def add(x):
        while True:
            x3 = mul2(mul2(x, x), x); g = ((x3[0] + 4) % P, (x3[1] + 4) % P)
            if leg2(*g) > 0: break
            x = (x[0] + 1, x[1])
        y = sqrt2(*g); r.append((x, y)); r.append((x, ((-y[0]) % P, (-y[1]) % P)))
    def first(f): return next(x for x in map(f, range(2, 1000)) for x3 in [mul2(mul2(x, x), x)] if leg2((x3[0] + 4) % P, (x3[1] + 4) % P) > 0)
    for x in [first(lambda t: (0, t)), first(lambda t: (t, 0)), (0, 0), (0, 7), (9, 0), (3, 1 << 100), (1 << 30, 5)] + [(rnd.randrange(P), rnd.randrange(P)) for _ in range(5)]: add(x)
    return r


def real_y2():
    """points of the curve over the quadratic extension with a real or purely imaginary ordinate"""
    r = []
    def cbrt(a):
        # cube roots in the quadratic extension: p^2 - 1 = 9 m; take exponent inverse of 3 in the part coprime to 3 when possible
        n = P * P - 1; m = n; k = 0
        while m % 3 == 0: m //= 3; k += 1
        if pw2(a, m) != (1, 0): return None
        return pw2(a, pow(3, -1, m))
    for s in range(2, 4000):
        for y in ((s, 0), (P - s, 0), (0, s), (0, P - s)):
            y2 = mul2(y, y); x = cbrt(((y2[0] - 4) % P, (y2[1] - 4) % P))
            if x is None: continue
            x3 = mul2(mul2(x, x), x)
            if ((x3[0] + 4) % P, (x3[1] + 4) % P) == y2: r.append((x, y))
        if len(r) >= 8: break
    return r


PRE = f"#include <marmock.hpp>\n#include <{MH}>\n#include <{BH}>\nusing namespace nil::marshalling; using namespace nil::crypto3;\ntypedef curve_element_serializer<algebra::curves::bls12_381> S; typedef mm::PT<mm::E1> P1; typedef mm::PT<mm::E2> P2;\n" + """
namespace boost { void assertion_failed(char const *, char const *, char const *, long) { throw 1; } void assertion_failed_msg(char const *, char const *, char const *, char const *, long) { throw 1; } }
inline P1 in1() { P1 p(mm::E1::mk(vd_in(0)), mm::E1::mk(vd_in(1)), mm::E1::mk(vd_in(2))); p.nz = vd_in(3); return p; }
inline P2 in2() { P2 p(mm::E2(mm::E1::mk(vd_in(0)), mm::E1::mk(vd_in(4))), mm::E2(mm::E1::mk(vd_in(1)), mm::E1::mk(vd_in(5))), mm::E2(mm::E1::mk(vd_in(2)), mm::E1::mk(vd_in(6)))); p.nz = vd_in(3); return p; }
inline void put(const P1 &p) { vd_out(0, p.nz); vd_out(1, p.X.red()); vd_out(2, p.Y.red()); vd_out(3, p.Z.red()); }
inline void put(const P2 &p) { vd_out(0, p.nz); for (int i = 0; i < 2; ++i) { vd_out(1 + i, p.X.data[i].red()); vd_out(3 + i, p.Y.data[i].red()); vd_out(5 + i, p.Z.data[i].red()); } }
template<class R> void oct(const R &r) { int k = 0; for (auto it = r.begin(); it != r.end(); ++it, ++k) vi_out(1000 + k, *it); vd_out(999, (double)k); }
template<class R> R mk(int n) { R r{}; auto it = r.begin(); for (int i = 0; i < n; ++i, ++it) *it = vb_in(i); return r; }
template<> std::vector<std::uint8_t> mk<std::vector<std::uint8_t>>(int n) { std::vector<std::uint8_t> r(n); for (int i = 0; i < n; ++i) r[i] = vb_in(i); return r; }
"""
FL = ["-DBOOST_ENABLE_ASSERT_HANDLER", "-I" + os.path.join(ROOT, "harness", "marmock")]
JUNK = {f"x{i}": 7919 * (i + 3) for i in range(8)}


def enc1(p, comp):
    if p is None: return [0xC0 if comp else 0x40] + [0] * (47 if comp else 95)
    r = be(p[0], 48) + ([] if comp else be(p[1], 48))
    if comp: r[0] |= 0x80 | (0x20 if sign1(p[1]) else 0)
    return r
def enc2(p, comp):
    if p is None: return [0xC0 if comp else 0x40] + [0] * (95 if comp else 191)
    r = be(p[0][1], 48) + be(p[0][0], 48) + ([] if comp else be(p[1][1], 48) + be(p[1][0], 48))
    if comp: r[0] |= 0x80 | (0x20 if sign2(p[1]) else 0)
    return r


def M01(c):
    rnd = random.Random(5); pts = {1: points1(rnd), 2: points2(rnd) + real_y2()}
    obs = []
    def outp(g, p):
        if p is None: return {0: 0}
        return {0: 1, 1: p[0], 2: p[1], 3: 1} if g == 1 else {0: 1, 1: p[0][0], 2: p[0][1], 3: p[1][0], 4: p[1][1], 5: 1, 6: 0}
    for g in (1, 2):
        enc = enc1 if g == 1 else enc2
        def inp(p, g=g):
            i = dict(JUNK); i["x3"] = 0 if p is None else 1
            if g == 1: i["x10"], i["x11"] = p if p else (123456789, P - 5)
            else: i["x10"], i["x11"], i["x12"], i["x13"] = (p[0][0], p[0][1], p[1][0], p[1][1]) if p else (55, P - 8, P - 3, P - 2)
            return i
        allp = pts[g] + [None]
        for comp in (True, False):
            n = 48 * g * (1 if comp else 2); fn = "point_to_octets_compress" if comp else "point_to_octets"
            rows = [(f"p{k}" if p else "infinity", [], inp(p), {999: n, **{1000 + i: b for i, b in enumerate(enc(p, comp))}}) for k, p in enumerate(allp)]
            obs.append(Ob(f"encode/g{g}/{'compressed' if comp else 'uncompressed'}", f"oct(S::{fn}(in{g}()));", anchor=f"{fn}@{MH}", custom=Table(rows), tu=f"enc{g}"))
            # decoding
            good = [(f"p{k}" if p else "infinity", enc(p, comp), dict(JUNK), {**outp(g, p), 999: n, **{1000 + i: b for i, b in enumerate(enc(p, comp))}}) for k, p in enumerate(allp)]
            bad = []
            base = enc(allp[2], comp)
            for k, fl in enumerate((0x20, 0x60, 0xE0)):
                o = list(base); o[0] = (o[0] & 0x1F) | fl; bad.append((f"flags {fl:#x}", o, dict(JUNK), "reject"))
                o = [fl] + [0] * (n - 1); bad.append((f"flags {fl:#x} and zeros", o, dict(JUNK), "reject"))
            for pos, b in ((0, 1), (0, 0x10), (1, 2), (n - 1, 1), (n - 1, 0x80), (n // 2, 5), (n // 2, 1), (47, 3)):
                o = enc(None, comp); o[pos] |= b; bad.append((f"infinity with octet {pos} = {o[pos]:#x}", o, dict(JUNK), "reject"))
            # not on the curve
            cnt = 0
            for x in range(1, 200):
                X = (x, x + 1)
                ok = leg1(x ** 3 + 4) > 0 if g == 1 else leg2(*[(q + 4) % P for q in mul2(mul2(X, X), X)]) > 0
                if not ok:
                    o = (be(x, 48) if g == 1 else be(X[1], 48) + be(X[0], 48)) + ([] if comp else be(1, 48 * g))
                    if comp: o[0] |= 0x80 | (0x20 if x & 1 else 0)
                    bad.append((f"no point with abscissa {x}", o, dict(JUNK), "reject")); cnt += 1
                    if cnt == 4: break
            if not comp:
                for k in range(6):
                    o = list(enc(allp[k], comp)); o[-1 - 48 * (k % (2 * g))] ^= 1; bad.append((f"point {k} altered", o, dict(JUNK), "reject"))
            # coordinates that are not reduced
            small = [p for p in pts[g]] ; done = set()
            for p in small:
                cs = [p[0]] + ([] if comp else [p[1]]) if g == 1 else [p[0][1], p[0][0]] + ([] if comp else [p[1][1], p[1][0]])
                for j, v in enumerate(cs):
                    top = 1 << (381 if j == 0 else 384)
                    if v + P < top and (j, v == 0) not in done:
                        done.add((j, v == 0)); o = list(enc(p, comp)); z = be(v + P, 48)
                        if j == 0: z[0] |= o[0] & 0xE0
                        o[48 * j:48 * j + 48] = z; bad.append((f"coordinate {j} " + ("not reduced" if v else "equal to the modulus"), o, dict(JUNK), "reject"))
            rows = good + bad
            for R, rn in ((f"std::array<std::uint8_t, {n}>", "array"), ("std::vector<std::uint8_t>", "vector")):
                obs.append(Ob(f"decode/g{g}/{'compressed' if comp else 'uncompressed'}/{rn}", f"typedef {R} R; const R r = mk<R>({n}); put(S::octets_to_g{g}_point(r)); oct(r);", anchor=f"octets_to_g{g}_point@{MH}", custom=Table(rows), tu=f"dec{g}{comp}{rn}"))
            # without assertions the octets must announce their own length: the leading octet is fixed
            lead = {}
            for r in good: lead.setdefault(r[1][0], []).append(r)
            for b0 in sorted(lead):
                obs.append(Ob(f"decode/g{g}/{'compressed' if comp else 'uncompressed'}/no assertions/{b0:#x}", f"typedef std::array<std::uint8_t, {n}> R; R r = mk<R>({n}); r[0] = {b0}; put(S::octets_to_g{g}_point(r)); oct(r);", anchor=f"octets_to_g{g}_point@{MH}", custom=Table(lead[b0]), tu=f"nd{g}{comp}"))
            for ln in (1, 2, n // 2, n - 1, n + 1, 2 * n, 4 * n):
                o = enc(allp[1], comp); o = (o + [0] * (4 * n))[:ln]; inf = (enc(None, comp) + [0] * (4 * n))[:ln]
                if ln == 1: o = [enc(allp[1], comp)[0]]
                rows = [("point", o, dict(JUNK), "reject"), ("infinity", inf, dict(JUNK), "reject")]
                obs.append(Ob(f"decode/g{g}/{'compressed' if comp else 'uncompressed'}/{ln} octets", f"typedef std::vector<std::uint8_t> R; const R r = mk<R>({ln}); put(S::octets_to_g{g}_point(r));", anchor=f"octets_to_g{g}_point@{MH}", custom=Table(rows), tu=f"len{g}{comp}"))
    for o in obs: o.hooks = HK
    fl = {o.tu: (FL if not o.tu.startswith("nd") else FL[1:] + ["-DBOOST_DISABLE_ASSERTS"]) for o in obs}
    run(c, obs, PRE, flags=("-UNDEBUG", "-fno-threadsafe-statics"), tuflags=fl, prefix="m")


# ---------------------------------------------------------------- M02: fixed-length encodings of field elements
def le(x, n): return [x >> 8 * i & 255 for i in range(n)]


PRE2 = PRE + """
typedef bincode::curve<algebra::curves::bls12<381>> BC;
template<int M> void fill(mm::FE<M> &e, int &k) { e = mm::FE<M>::mk(vd_in(100 + k++)); }
template<class T> auto fill(T &e, int &k) -> decltype(e.data.size(), void()) { for (auto &x : e.data) fill(x, k); }
template<int M> void get(const mm::FE<M> &e, int &k) { vd_out(2 + k++, e.red()); }
template<class T> auto get(const T &e, int &k) -> decltype(e.data.size(), void()) { for (auto &x : e.data) get(x, k); }
template<class E> E inE() { E e; int k = 0; fill(e, k); return e; }
template<class E> void putE(const E &e) { int k = 0; get(e, k); }
"""
FIELDS = [("fp", "mm::fp", 1, 1, 48), ("fr", "mm::fr", 2, 1, 32), ("fp256", "mm::fp256", 3, 1, 32), ("fp2", "mm::fp2", 1, 2, 48), ("fp6", "mm::fp6", 1, 6, 48), ("fp12", "mm::fp12", 1, 12, 48)]


def M02(c):
    rnd = random.Random(9); obs = []
    for nm, F, M, ar, w in FIELDS:
        p = PM[M]; n = ar * w
        special = [0, 1, 255, 256, p - 1, 1 << 64, 1 << 200, (1 << 120) - 1, p >> 8, p >> 16]
        vals = [[0] * ar, [p - 1] * ar] + [[special[(i * 3 + j) % len(special)] for i in range(ar)] for j in range(8)] + [[rnd.randrange(p) for _ in range(ar)] for _ in range(3)] + [[rnd.randrange(1 << rnd.choice([8, 16, 60, 128, 200])) for _ in range(ar)] for _ in range(3)]
        for api in ("field", "curve"):
            if api == "curve" and nm in ("fp256",): continue
            T = f"bincode::field<{F}>" if api == "field" else "BC"; tf = "" if api == "field" else f"<{F}>"
            enc = {999: n, 998: n, 997: 77}
            rows = [(f"v{j}", [rnd.randrange(256) for _ in range(n + 8)], {**{f"x{100 + i}": v for i, v in enumerate(e)}}, {**enc, **{1000 + i * w + k: b for i, v in enumerate(e) for k, b in enumerate(le(v, w))}, **{2 + i: v for i, v in enumerate(e)}}) for j, e in enumerate(vals)]
            for r in rows: r[3].update({1000 + n + i: r[1][n + i] for i in range(8)})
            unred = [(f"v{j}+p", r[1], {k: v + p * ((i + j) % 3) for i, (k, v) in enumerate(r[2].items())}, r[3]) for j, r in enumerate(rows[:5])]
            out = lambda it: f"vd_out(999, (double)r); vd_out(998, (double){'bincode::field<' + F + '>::get_element_size()' if api == 'field' else n}); vd_out(997, 77.0); putE(e); for (int i = 0; i < {n + 8}; ++i) vi_out(1000 + i, b[i]);"
            obs.append(Ob(f"to_bytes/{api}/{nm}/vector", f"auto e = inE<{F}::value_type>(); auto b = mk<std::vector<std::uint8_t>>({n + 8}); auto r = {T}::template field_element_to_bytes{tf}(e, b.begin(), b.begin() + {n}); {out(0)}", anchor=f"field_element_to_bytes@{BH}", custom=Table(rows + unred), tu=f"to{nm}"))
            obs.append(Ob(f"to_bytes/{api}/{nm}/pointer", f"auto e = inE<{F}::value_type>(); std::uint8_t b[{n + 8}]; for (int i = 0; i < {n + 8}; ++i) b[i] = vb_in(i); auto r = {T}::template field_element_to_bytes{tf}(e, &b[0], &b[0] + {n}); {out(0)}", anchor=f"field_element_to_bytes@{BH}", custom=Table(rows), tu=f"to{nm}"))
            # decoding
            top = 1 << 8 * w
            alt = [[p] * ar, [top - 1] * ar, [p + 1] + [0] * (ar - 1), [0] * (ar - 1) + [p], [5] * (ar - 1) + [min(top - 1, p + 12345)]] + [[p if i == j else i + 3 for i in range(ar)] for j in range(ar)]
            rows = [(f"w{j}", [b for v in e for b in le(v, w)], {}, {0: 1 if all(v < p for v in e) else 0, **{2 + i: v % p for i, v in enumerate(e)}, **{1000 + i: b for i, b in enumerate([b for v in e for b in le(v, w)])}}) for j, e in enumerate(vals + alt)]
            for rn, decl in (("vector", f"const auto b = mk<std::vector<std::uint8_t>>({n}); auto f = b.begin(), l = b.end();"), ("pointer", f"std::uint8_t b[{n}]; for (int i = 0; i < {n}; ++i) b[i] = vb_in(i); const std::uint8_t *f = &b[0], *l = f + {n};")):
                obs.append(Ob(f"from_bytes/{api}/{nm}/{rn}", f"{decl} auto r = {T}::template field_element_from_bytes{tf}(f, l); vd_out(0, r.first ? 1.0 : 0.0); putE(r.second); for (int i = 0; i < {n}; ++i) vi_out(1000 + i, b[i]);", anchor=f"field_element_from_bytes@{BH}", custom=Table(rows), tu=f"from{nm}{rn}"))
            for ln in sorted({0, 1, w - 1, n - 1, n + 1, n + w, 2 * n} | ({w} if ar > 1 else set())):
                obs.append(Ob(f"length/{api}/{nm}/from {ln}", f"const auto b = mk<std::vector<std::uint8_t>>({ln}); auto r = {T}::template field_element_from_bytes{tf}(b.begin(), b.end()); putE(r.second);", anchor=f"field_element_from_bytes@{BH}", custom=Table([("length", [1] * ln, {}, "reject")]), tu=f"len{nm}"))
                obs.append(Ob(f"length/{api}/{nm}/to {ln}", f"auto e = inE<{F}::value_type>(); auto b = mk<std::vector<std::uint8_t>>({ln} + {n}); {T}::template field_element_to_bytes{tf}(e, b.begin(), b.begin() + {ln});", anchor=f"field_element_to_bytes@{BH}", custom=Table([("length", [1] * (ln + n), {f"x{100 + i}": 3 for i in range(ar)}, "reject")]), tu=f"len{nm}"))
    pts = {1: points1(rnd)[:6], 2: points2(rnd)[:6] + real_y2()[:4]}
    for g in (1, 2):
        enc = enc1 if g == 1 else enc2; n = 48 * g; rows = []; drows = []
        for k, p in enumerate(pts[g] + [None]):
            i = dict(JUNK); i["x3"] = 0 if p is None else 1
            if g == 1: i["x10"], i["x11"] = p if p else (123, 456)
            else: i["x10"], i["x11"], i["x12"], i["x13"] = (*p[0], *p[1]) if p else (1, 2, 3, 4)
            junk = [rnd.randrange(256) for _ in range(n + 8)]
            rows.append((f"p{k}" if p else "infinity", junk, i, {999: n, **{1000 + j: b for j, b in enumerate(enc(p, True) + junk[n:])}}))
            e = {0: 0} if p is None else {0: 1, 1: p[0], 2: p[1], 3: 1} if g == 1 else {0: 1, 1: p[0][0], 2: p[0][1], 3: p[1][0], 4: p[1][1], 5: 1, 6: 0}
            drows.append((f"p{k}" if p else "infinity", enc(p, True), dict(JUNK), e))
        for fl in (0x20, 0x60, 0xE0): o = list(enc(pts[g][0], True)); o[0] = o[0] & 0x1F | fl; drows.append((f"flags {fl:#x}", o, dict(JUNK), "reject"))
        GT = f"BC::g{g}_type"
        obs.append(Ob(f"point_to_bytes/g{g}", f"auto b = mk<std::vector<std::uint8_t>>({n + 8}); auto r = BC::point_to_bytes<{GT}>(in{g}(), b.begin(), b.begin() + {n}); vd_out(999, (double)r); for (int i = 0; i < {n + 8}; ++i) vi_out(1000 + i, b[i]);", anchor=f"point_to_bytes@{BH}", custom=Table(rows), tu=f"pt{g}"))
        obs.append(Ob(f"point_to_bytes/g{g}/pointer", f"std::uint8_t b[{n + 8}]; for (int i = 0; i < {n + 8}; ++i) b[i] = vb_in(i); auto r = BC::point_to_bytes<{GT}>(in{g}(), &b[0], &b[0] + {n}); vd_out(999, (double)r); for (int i = 0; i < {n + 8}; ++i) vi_out(1000 + i, b[i]);", anchor=f"point_to_bytes@{BH}", custom=Table(rows), tu=f"pt{g}"))
        obs.append(Ob(f"point_from_bytes/g{g}", f"const auto b = mk<std::vector<std::uint8_t>>({n}); put(BC::g{g}_point_from_bytes(b.begin(), b.end()));", anchor=f"g{g}_point_from_bytes@{BH}", custom=Table(drows), tu=f"ptd{g}"))
        for ln in (1, n - 1, n + 1, 2 * n):
            inf = (enc(None, True) + [0] * n)[:ln]
            obs.append(Ob(f"point_from_bytes/g{g}/{ln} octets", f"const auto b = mk<std::vector<std::uint8_t>>({ln}); put(BC::g{g}_point_from_bytes(b.begin(), b.end()));", anchor=f"g{g}_point_from_bytes@{BH}", custom=Table([("length", inf, dict(JUNK), "reject")]), tu=f"ptl{g}"))
            obs.append(Ob(f"point_to_bytes/g{g}/{ln} octets", f"auto b = mk<std::vector<std::uint8_t>>({ln + n}); BC::point_to_bytes<{GT}>(in{g}(), b.begin(), b.begin() + {ln});", anchor=f"point_to_bytes@{BH}", custom=Table([("length", [1] * (ln + n), rows[0][2], "reject")]), tu=f"ptl{g}"))
        obs.append(Ob(f"sizes/g{g}", f"vd_out(0, (double)BC::element_size<{GT}>()); vd_out(1, (double)BC::g{g}_octets_num);", anchor=f"element_size@{BH}", custom=Table([("size", [], {}, {0: n, 1: n})]), tu="sizes"))
    for nm, F, M, ar, w in FIELDS:
        if nm in ("fp", "fr", "fp12"): obs.append(Ob(f"sizes/{nm}", f"vd_out(0, (double)BC::element_size<{F}>()); vd_out(1, (double)bincode::field<{F}>::get_element_size()); vd_out(2, (double)bincode::field<{F}>::field_octets_num);", anchor=f"element_size@{BH}", custom=Table([("size", [], {}, {0: ar * w, 1: ar * w, 2: ar * w})]), tu="sizes"))
    for o in obs: o.hooks = HK
    run(c, obs, PRE2, flags=["-UNDEBUG", "-fno-threadsafe-statics"] + FL, prefix="n")


PROPS = {"M01": M01, "M02": M02}
