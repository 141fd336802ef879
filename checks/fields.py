"""F01-F06: prime-field wrapper and extension-field towers.

The element templates of fields/detail/element are instantiated over an exact symbolic base field (harness/sf.hpp), so one
obligation covers every field: the values computed by each operation are compared, as rational functions of the
coordinates, with arithmetic in the quotient ring that defines the tower."""
from core import *
from harn import *
import re, subprocess
from absint import AnalysisError, leaf, as_term, term
import absint
from poly import FRat, Rat
from curves import Model, Bad, curve_custom, run_curve

EL = "nil/crypto3/algebra/fields/detail/element/"
B2, B3 = 5, 7                     # the towers' small non-residues (u^2 = B2, v^3 = B3)
XI = (11, 3)                      # v^3 = 11 + 3u
FR = {k: [101 + 17 * i + 3 * i * i + 1000 * n for i in range(m)] for n, (k, m) in enumerate((("2", 2), ("31", 3), ("32", 3), ("4", 4), ("62", 6), ("631", 12), ("632", 12), ("12", 24)))}

PRE = r'''
#include <vf_mp.hpp>
#include <sf.hpp>
#include <array>
#include <vector>
#include <nil/crypto3/algebra/fields/detail/element/fp2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp4.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp12_2over3over2.hpp>
using namespace nil::crypto3::algebra::fields::detail;
typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<64>> N64;
template<class P> struct FT { typedef P extension_policy; typedef N64 integral_type; };
template<class P, class U, class NR> struct PB { typedef N64 integral_type; static constexpr N64 modulus = 1009u; typedef FT<P> field_type; typedef NR non_residue_type; typedef U underlying_type; };
template<int B> struct P2 : PB<P2<B>, SF, SF> { static constexpr SF non_residue = SF::mk(B); static constexpr std::array<int, 2> Frobenius_coeffs_c1 = {FR2};
    static constexpr std::size_t s = S2; static constexpr N64 t = T2, t_minus_1_over_2 = (T2 - 1) / 2; static constexpr std::array<int, 3> nqr_to_t = {1, T2, 0}; static constexpr N64 group_order_minus_one_half = (T2 << S2) / 2; };
template<int B> struct P3 : PB<P3<B>, SF, SF> { static constexpr SF non_residue = SF::mk(B); static constexpr std::array<int, 3> Frobenius_coeffs_c1 = {FR31}, Frobenius_coeffs_c2 = {FR32};
    static constexpr std::size_t s = S2; static constexpr N64 t = T2, t_minus_1_over_2 = (T2 - 1) / 2; static constexpr std::array<int, 3> nqr_to_t = {1, T2, 0}; static constexpr N64 group_order_minus_one_half = (T2 << S2) / 2; };
typedef element_fp2<P2<NR2>> E2;
typedef element_fp2<P2<-1>> E2i;
typedef element_fp3<P3<NR3>> E3;
struct P4 : PB<P4, E2, SF> { static constexpr SF non_residue = SF::mk(NR2); static constexpr std::array<int, 4> Frobenius_coeffs_c1 = {FR4}; };
typedef element_fp4<P4> E4;
struct P62 : PB<P62, E3, SF> { static constexpr SF non_residue = SF::mk(NR3); static constexpr std::array<int, 6> Frobenius_coeffs_c1 = {FR62}; };
typedef element_fp6_2over3<P62> E62;
struct P63 : PB<P63, E2, E2> { static constexpr E2 non_residue = E2(XI0, XI1); static constexpr std::array<int, 12> Frobenius_coeffs_c1 = {FR631}, Frobenius_coeffs_c2 = {FR632}; };
typedef element_fp6_3over2<P63> E63;
struct P12 : PB<P12, E63, E2> { static constexpr E2 non_residue = E2(XI0, XI1); static constexpr std::array<int, 24> Frobenius_coeffs_c1 = {FR12}; };
typedef element_fp12_2over3over2<P12> E12;
// the same towers with the quadratic subfield itself symbolic
struct P63k : PB<P63k, SF, SF> { static constexpr SF non_residue = SF::mk(NR3); };
typedef element_fp6_3over2<P63k> E63k;
struct P12k : PB<P12k, E63k, SF> { static constexpr SF non_residue = SF::mk(NR3); };
typedef element_fp12_2over3over2<P12k> E12k;
template<class E> struct io {
    static E get(int &k) { E e; for (auto &c : e.data) c = io<typename std::decay<decltype(c)>::type>::get(k); return e; }
    static void put(int &k, const E &e) { for (const auto &c : e.data) io<typename std::decay<decltype(c)>::type>::put(k, c); }
};
template<> struct io<SF> { static SF get(int &k) { return in(k++); } static void put(int &k, const SF &e) { out(k++, e); } };
template<class E> E get(int k) { return io<E>::get(k); }
template<class E> void put(int k, const E &e) { io<E>::put(k, e); }
static void flag(int k, bool b) { vi_out(k, b); }
'''


def prelude(s=3, t=3):
    r = PRE
    for k, v in FR.items(): r = re.sub(r"\{FR%s\}" % k, "{{" + ",".join(map(str, v)) + "}}", r)
    for k, v in (("NR2", B2), ("NR3", B3), ("XI0", XI[0]), ("XI1", XI[1]), ("S2", s), ("T2", t)): r = re.sub(r"\b%s\b" % k, str(v), r)
    return r


# ------------------------------------------------------------------ the quotient rings
class Base:
    n = 1
    def make(self, f): return f()
    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def mul(self, a, b): return a * b
    def const(self, w, k): return w.c(k)
    def flat(self, a): return [a]
    def scal(self, k, a): return a * k


class Ext:
    def __init__(self, U, deg, red, frob=None):
        """red(a): a times (adjoined element)^deg"""
        self.U = U; self.deg = deg; self.red = red; self.n = U.n * deg; self.frob = frob

    def make(self, f): return [self.U.make(f) for _ in range(self.deg)]
    def add(self, a, b): return [self.U.add(x, y) for x, y in zip(a, b)]
    def sub(self, a, b): return [self.U.sub(x, y) for x, y in zip(a, b)]
    def scal(self, k, a): return [self.U.scal(k, x) for x in a]
    def const(self, w, k): return [self.U.const(w, k)] + [self.U.const(w, 0)] * (self.deg - 1)
    def flat(self, a): return [y for x in a for y in self.U.flat(x)]

    def mul(self, a, b):
        d = self.deg
        r = [None] * (2 * d - 1)
        for i in range(d):
            for j in range(d):
                p = self.U.mul(a[i], b[j])
                r[i + j] = p if r[i + j] is None else self.U.add(r[i + j], p)
        for k in range(2 * d - 2, d - 1, -1):
            r[k - d] = self.U.add(r[k - d], self.red(r[k]))
        return r[:d]


K = Base()
F2 = Ext(K, 2, lambda a: a * B2)
F2i = Ext(K, 2, lambda a: -a)
F3 = Ext(K, 3, lambda a: a * B3)
F4 = Ext(F2, 2, lambda a: F2.mul(a, _u2(a, 1)))
F62 = Ext(F3, 2, lambda a: F3.mul(a, _u3(a)))
F63 = Ext(F2, 3, lambda a: F2.mul(a, _xi(a)))
F12 = Ext(F63, 2, lambda a: F63.mul(a, _v(F63, a)))
F63k = Ext(K, 3, lambda a: a * B3)
F12k = Ext(F63k, 2, lambda a: F63k.mul(a, _v(F63k, a)))


def _cst(a, k):
    while isinstance(a, list): a = a[0]
    return a * 0 + k


def _u2(a, k): return [_cst(a, 0), _cst(a, k)]
def _u3(a): return [_cst(a, 0), _cst(a, 1), _cst(a, 0)]
def _xi(a): return [_cst(a, XI[0]), _cst(a, XI[1])]
def _v(F, a): return F.make(iter_of(a, [0] * F.U.n + [1] + [0] * (F.n - F.U.n - 1)))


def iter_of(a, l):
    it = iter(l)
    return lambda: _cst(a, next(it))


T = {"fp2": ("E2", F2), "fp3": ("E3", F3), "fp4": ("E4", F4), "fp6_2over3": ("E62", F62), "fp6_3over2": ("E63", F63), "fp12_2over3over2": ("E12", F12)}
TK = {"fp6_3over2": ("E63k", F63k), "fp12_2over3over2": ("E12k", F12k)}


def el(w, F, base):
    n = iter(range(base, base + F.n))
    return F.make(lambda: w[f"x{next(n)}"])


def outs_of(get, F, base): return [get(base + i) for i in range(F.n)]


def expect_el(get, F, base, want, what=""):
    for i, r in enumerate(F.flat(want)):
        g = get(base + i)
        if not g.eq(r): raise Bad(f"{what}coordinate {i} of the result is {show(g)[:140]}, the field requires {show(r)[:140]}")


def expect_flag(get, k, want):
    g = get(k)
    v = (not g.eq(0)) if isinstance(g, Rat) else bool(g)
    if isinstance(g, Rat) and not (g.eq(0) or g.eq(1)): raise Bad("the truth value depends on more than the operands' equality")
    if v != want: raise Bad(f"returns {v}, required {want}")


def ob(key, body, anchor, verify, inputs=lambda w: {}, Kind=Rat, tu="main", allowed=lambda w: []):
    return Ob(key, body, anchor=anchor, tu=tu, custom=curve_custom([Model(inputs, verify, allowed, K=Kind, explore=0)]))


class Zn:
    """truth table of == / != / is_zero / is_one: one stratum per coordinate"""


def add_mul_obs():
    obs = []
    for name, (E, F) in T.items():
        A = f"@{EL}{name}.hpp"
        n = F.n
        X = lambda w, F=F: el(w, F, 0)
        Y = lambda w, F=F: el(w, F, 50)
        two = f"{E} x = get<{E}>(0), y = get<{E}>(50);"
        one = f"{E} x = get<{E}>(0);"
        P = lambda what, want, body, anc, b=0: obs.append(ob(f"{what}/{name}", body, anc + A, (lambda w, get, e, F=F, want=want: expect_el(get, F, 0, want(w)))))
        P("add", lambda w, F=F, X=X, Y=Y: F.add(X(w), Y(w)), two + "const " + E + " &cx = x; put(0, cx + y);", "operator+")
        P("sub", lambda w, F=F, X=X, Y=Y: F.sub(X(w), Y(w)), two + "const " + E + " &cx = x; put(0, cx - y);", "operator-")
        P("neg", lambda w, F=F, X=X: F.scal(-1, X(w)), one + "const " + E + " &cx = x; put(0, -cx);", "operator-")
        P("mul", lambda w, F=F, X=X, Y=Y: F.mul(X(w), Y(w)), two + "const " + E + " &cx = x; put(0, cx * y);", "operator*")
        P("doubled", lambda w, F=F, X=X: F.scal(2, X(w)), one + "const " + E + " &cx = x; put(0, cx.doubled());", "doubled")
        P("zero", lambda w, F=F: F.const(w, 0), f"put(0, {E}::zero());", "zero")
        P("one", lambda w, F=F: F.const(w, 1), f"put(0, {E}::one());", "one")
        P("copy", lambda w, X=X: X(w), one + f"{E} z(x); put(0, z);", "element_" + name)
        P("move", lambda w, X=X: X(w), one + f"{E} z(std::move(x)); put(0, z);", "element_" + name)
        P("move-const", lambda w, X=X: X(w), one + f"const {E} cx(x); {E} z(std::move(cx)); put(0, z);", "element_" + name)
        P("move-assign", lambda w, X=X: X(w), two + "y = std::move(x); put(0, y);", "operator=")
        P("assign", lambda w, X=X: X(w), two + "y = x; put(0, y);", "operator=")
        P("assign-self", lambda w, X=X: X(w), one + f"{E} &r = x; x = r; put(0, x);", "operator=")
        P("from-components", lambda w, X=X: X(w), one + f"{E} z({', '.join(f'x.data[{i}]' for i in range(F.deg))}); put(0, z);", "element_" + name)
        P("from-array", lambda w, X=X: X(w), one + f"typename {E}::data_type a = x.data; {E} z(a); put(0, z);", "element_" + name)
        def comp(op, want, F=F, two=two, one=one, A=A, name=name, X=X, Y=Y):
            def ver(w, get, e):
                expect_el(get, F, 0, want(w, X(w), Y(w)))
                expect_el(get, F, 20, want(w, X(w), Y(w)), "returned reference: ")
                expect_el(get, F, 40, Y(w), "right operand: ")
            obs.append(ob(f"compound{op}/{name}", two + f" auto &r = (x {op} y); put(0, x); put(20, r); put(40, y);", "operator" + op + A, ver))
            obs.append(ob(f"compound{op}self/{name}", one + f" x {op} x; put(0, x);", "operator" + op + A, lambda w, get, e: expect_el(get, F, 0, want(w, X(w), X(w)))))
        comp("+=", lambda w, x, y, F=F: F.add(x, y))
        comp("-=", lambda w, x, y, F=F: F.sub(x, y))
        comp("*=", lambda w, x, y, F=F: F.mul(x, y))
        # truth tables
        eqb = two + f"const {E} &cx = x; flag(0, cx == y); flag(1, cx != y);"
        same_in = lambda w, skip=None, n=n: {f"x{50 + i}": w[f"x{i}"] for i in range(n) if i != skip}
        def eqv(val): return lambda w, get, e: (expect_flag(get, 0, val), expect_flag(get, 1, not val))
        obs.append(ob(f"equal/{name}/same", eqb, "operator==" + A, eqv(True), same_in))
        for i in range(n):
            obs.append(ob(f"equal/{name}/differs-at-{i}", eqb, "operator==" + A, eqv(False), lambda w, i=i, f=same_in: f(w, i)))
        obs.append(ob(f"equal/{name}/generic", eqb, "operator==" + A, eqv(False)))
        zb = one + f"const {E} &cx = x; flag(0, cx.is_zero()); flag(1, cx.is_one());"
        def zv(z, o): return lambda w, get, e: (expect_flag(get, 0, z), expect_flag(get, 1, o))
        def at(w, vals, n=n): return {f"x{i}": (w.c(vals.get(i, 0)) if not isinstance(vals.get(i), str) else w[vals[i]]) for i in range(n)}
        obs.append(ob(f"is_zero/{name}/zero", zb, "is_zero" + A, zv(True, False), lambda w, at=at: at(w, {})))
        obs.append(ob(f"is_zero/{name}/one", zb, "is_one" + A, zv(False, True), lambda w, at=at: at(w, {0: 1})))
        for i in range(n):
            obs.append(ob(f"is_zero/{name}/generic-at-{i}", zb, "is_zero" + A, zv(False, False), lambda w, i=i, at=at: at(w, {i: "v"})))
            if i: obs.append(ob(f"is_one/{name}/generic-at-{i}", zb, "is_one" + A, zv(False, False), lambda w, i=i, at=at: at(w, {0: 1, i: "v"})))
    for name, E, k in (("fp2", "E2", 2), ("fp3", "E3", 3)):
        obs.append(ob(f"from-integers/{name}", f"{E} z({', '.join(str(v) for v in (3, -4, 9)[:k])}); put(0, z);", f"element_{name}@{EL}{name}.hpp",
                      lambda w, get, e, k=k: [expect_el(get, T[name][1] if False else Ext(K, k, None), 0, [w.c(v) for v in (3, -4, 9)[:k]])]))
    # scalar multiples by every subfield of the tower
    for name, E, F, s, S, lift in SCALARS:
        A = f"@{EL}{name}.hpp"
        for side, expr in (("left", "s * x"), ("right", "x * s")):
            obs.append(ob(f"scalar-{side}/{name}/{s}", f"{E} x = get<{E}>(0); {s} s = get<{s}>(50); put(0, {expr});", "operator*" + A,
                          lambda w, get, e, F=F, S=S, lift=lift: expect_el(get, F, 0, F.mul(el(w, F, 0), lift(w, el(w, S, 50))))))
    return obs


def lift1(F):
    """embedding of a subfield (first coordinates)"""
    def f(w, s):
        fl = []
        def go(x):
            if isinstance(x, list):
                for y in x: go(y)
            else: fl.append(x)
        go(s)
        it = iter(fl + [w.c(0)] * (F.n - len(fl)))
        return F.make(lambda: next(it))
    return f


SCALARS = [("fp2", "E2", F2, "SF", K, lift1(F2)), ("fp3", "E3", F3, "SF", K, lift1(F3)), ("fp6_2over3", "E62", F62, "SF", K, lift1(F62)),
           ("fp6_3over2", "E63", F63, "SF", K, lift1(F63)), ("fp6_3over2", "E63", F63, "E2", F2, lift1(F63)),
           ("fp12_2over3over2", "E12", F12, "SF", K, lift1(F12)), ("fp12_2over3over2", "E12", F12, "E2", F2, lift1(F12)), ("fp12_2over3over2", "E12", F12, "E63", F63, lift1(F12))]


def inv_obs():
    obs = []
    for name, (E, F) in T.items():
        A = f"@{EL}{name}.hpp"
        obs.append(ob(f"squared/{name}", f"const {E} x = get<{E}>(0); put(0, x.squared());", "squared" + A,
                      lambda w, get, e, F=F: expect_el(get, F, 0, F.mul(el(w, F, 0), el(w, F, 0)))))
        if name == "fp12_2over3over2": E, F = TK[name]
        def ver(w, get, e, F=F):
            x = el(w, F, 0); y = iter(outs_of(get, F, 0)); y = F.make(lambda: next(y))
            p = F.flat(F.mul(x, y))
            for i, v in enumerate(p):
                if not v.eq(1 if i == 0 else 0): raise Bad(f"x * x.inversed() has coordinate {i} equal to {show(v)[:120]}")
        obs.append(ob(f"inversed/{name}", f"const {E} x = get<{E}>(0); put(0, x.inversed());", "inversed" + A, ver, Kind=FRat))
        # elements of proper subfields and single-coordinate elements are inverted too
        for i in range(F.n):
            keep = (i,)
            def vin(w, keep=keep, F=F): return {f"x{k}": w.c(0) for k in range(F.n) if k not in keep}
            def ver1(w, get, e, F=F, keep=keep):
                n = iter(range(F.n)); x = F.make(lambda: (w[f"x{k}"] if (k := next(n)) in keep else w.c(0)))
                y = iter(outs_of(get, F, 0)); y = F.make(lambda: next(y))
                for j, v in enumerate(F.flat(F.mul(x, y))):
                    if not v.eq(1 if j == 0 else 0): raise Bad(f"x * x.inversed() has coordinate {j} equal to {show(v)[:120]}")
            obs.append(ob(f"inversed/{name}/only-coordinate-{i}", f"const {E} x = get<{E}>(0); put(0, x.inversed());", "inversed" + A, ver1, vin, Kind=FRat))
    for name in ("fp4", "fp6_2over3", "fp12_2over3over2"):
        E, F = T[name]
        A = f"@{EL}{name}.hpp"
        # conjugation x0 - x1*w: the inverse of every element of norm one over the subfield
        def ver(w, get, e, F=F):
            x = el(w, F, 0)
            expect_el(get, F, 0, [x[0], F.U.scal(-1, x[1])])
        obs.append(ob(f"unitary_inversed/{name}", f"const {E} x = get<{E}>(0); put(0, x.unitary_inversed());", "unitary_inversed" + A, ver))
    return obs


# ------------------------------------------------------------------ Frobenius
def frob_oracle(name):
    """coordinate map prescribed by the tables, for power k; x nested, returns nested"""
    f2 = lambda w, x, k: [x[0], x[1] * FR["2"][k % 2]]
    f3 = lambda w, x, k: [x[0], x[1] * FR["31"][k % 3], x[2] * FR["32"][k % 3]]
    pair = lambda w, t, i: [w.c(FR[t][2 * i]), w.c(FR[t][2 * i + 1])]
    def f63(w, x, k):
        return [f2(w, x[0], k), F2.mul(pair(w, "631", k % 6), f2(w, x[1], k)), F2.mul(pair(w, "632", k % 6), f2(w, x[2], k))]
    def f12(w, x, k):
        c = pair(w, "12", k % 12)
        return [f63(w, x[0], k), [F2.mul(c, y) for y in f63(w, x[1], k)]]
    return {"fp2": f2, "fp3": f3, "fp6_3over2": f63, "fp12_2over3over2": f12,
            "fp4": lambda w, x, k: [f2(w, x[0], k), F2.scal(FR["4"][k % 4], f2(w, x[1], k))],
            "fp6_2over3": lambda w, x, k: [f3(w, x[0], k), F3.scal(FR["62"][k % 6], f3(w, x[1], k))]}[name]


def frob_obs():
    obs = []
    for name, (E, F) in T.items():
        per = {"fp2": 2, "fp3": 3, "fp4": 4, "fp6_2over3": 6, "fp6_3over2": 6, "fp12_2over3over2": 12}[name]
        f = frob_oracle(name)
        for k in list(range(0, 2 * per + 2)) + [12 * 1000003 + 7]:
            for ty in (("unsigned", "int", "std::size_t") if k in (1, per + 1) else ("std::size_t",)):
                obs.append(ob(f"frobenius/{name}/{k}/{ty}", f"const {E} x = get<{E}>(0); {ty} k = {k}; put(0, x.Frobenius_map(k));", f"Frobenius_map@{EL}{name}.hpp",
                              lambda w, get, e, F=F, f=f, k=k: expect_el(get, F, 0, f(w, el(w, F, 0), k))))
    return obs


# ------------------------------------------------------------------ sparse products, cyclotomic arithmetic
def sparse_obs():
    obs = []
    A = lambda n: f"@{EL}{n}.hpp"
    X = lambda w, F, b=0: el(w, F, b)
    P = lambda key, body, anc, F, want, Kind=Rat, inputs=lambda w: {}: obs.append(ob(key, body, anc, lambda w, get, e: expect_el(get, F, 0, want(w)), inputs, Kind=Kind))
    P("mul_xi/fp2", "E2i x = get<E2i>(0); put(0, x.mul_xi());", "mul_xi" + A("fp2"), F2i, lambda w: F2i.mul(X(w, F2i), [w.c(9), w.c(1)]))
    P("mul_x/fp2", "E2i x = get<E2i>(0); put(0, x.mul_x());", "mul_x" + A("fp2"), F2i, lambda w: F2i.mul(X(w, F2i), [w.c(0), w.c(1)]))
    P("mul_Fp_0/fp2", "E2 x = get<E2>(0); put(0, x.mul_Fp_0(in(50)));", "mul_Fp_0" + A("fp2"), F2, lambda w: F2.mul(X(w, F2), [w["x50"], w.c(0)]))
    P("mul_Fp_1/fp2", "E2i x = get<E2i>(0); put(0, x.mul_Fp_1(in(50)));", "mul_Fp_1" + A("fp2"), F2i, lambda w: F2i.mul(X(w, F2i), [w.c(0), w["x50"]]))
    for name in ("fp4", "fp6_2over3", "fp6_3over2", "fp12_2over3over2"):
        E, F = T[name]; U = {"fp4": "E2", "fp6_2over3": "E3", "fp6_3over2": "E2", "fp12_2over3over2": "E63"}[name]; FU = F.U
        P(f"mul_by_non_residue/{name}", f"{E} z = {E}::one(); {U} x = get<{U}>(0); put(0, z.mul_by_non_residue(x));", "mul_by_non_residue" + A(name), FU, lambda w, F=F, FU=FU: F.red(X(w, FU)))
    z = lambda w: w.c(0)
    P("mul_by_023/fp4", "const E4 x = get<E4>(0); E4 y = get<E4>(50); put(0, x.mul_by_023(y));", "mul_by_023" + A("fp4"), F4,
      lambda w: F4.mul(X(w, F4), [[w["x50"], z(w)], [w["x52"], w["x53"]]]), inputs=lambda w: {"x51": z(w)})
    P("mul_by_2345/fp6_2over3", "const E62 x = get<E62>(0); E62 y = get<E62>(50); put(0, x.mul_by_2345(y));", "mul_by_2345" + A("fp6_2over3"), F62,
      lambda w: F62.mul(X(w, F62), [[z(w), z(w), w["x52"]], [w["x53"], w["x54"], w["x55"]]]), inputs=lambda w: {"x50": z(w), "x51": z(w)})
    n = "fp12_2over3over2"
    o2 = lambda w, i: el(w, F2, 50 + 2 * i)
    z2 = lambda w: [w.c(0), w.c(0)]
    P("mul_by_045/" + n, "const E12 x = get<E12>(0); put(0, x.mul_by_045(get<E2>(50), get<E2>(52), get<E2>(54)));", "mul_by_045" + A(n), F12,
      lambda w: F12.mul(X(w, F12), [[o2(w, 1), z2(w), z2(w)], [z2(w), o2(w, 0), o2(w, 2)]]))
    P("mul_by_024/" + n, "const E12 x = get<E12>(0); put(0, x.mul_by_024(get<E2>(50), get<E2>(52), get<E2>(54)));", "mul_by_024" + A(n), F12,
      lambda w: F12.mul(X(w, F12), [[o2(w, 0), z2(w), o2(w, 2)], [z2(w), o2(w, 1), z2(w)]]))
    # cyclotomic squaring.  fp4: every unitary element is conj(y)/y
    def unit4(w):
        y = el(w, F4, 80); yb = [y[0], F2.scal(-1, y[1])]
        nn = F2.mul(y[0], y[0]); m = F4.red(F2.mul(y[1], y[1])); N = F2.sub(nn, m)          # y * conj(y) in F2
        ninv = 1 / (N[0] * N[0] - N[1] * N[1] * B2)
        Ni = [N[0] * ninv, -(N[1] * ninv)]
        num = F4.mul(yb, yb)
        return [F2.mul(num[0], Ni), F2.mul(num[1], Ni)]
    obs.append(ob("cyclotomic_squared/fp4", "const E4 x = get<E4>(0); put(0, x.cyclotomic_squared());", "cyclotomic_squared" + A("fp4"),
                  lambda w, get, e: expect_el(get, F4, 0, F4.mul(unit4(w), unit4(w))),
                  lambda w: {f"x{i}": v for i, v in enumerate(F4.flat(unit4(w)))}, Kind=FRat))
    for name, E in (("fp6_2over3", "E62"), ("fp12_2over3over2", "E12k")):
        obs.append(ob(f"cyclotomic_squared/{name}", f"const {E} x = get<{E}>(0); put(0, x.cyclotomic_squared());", "cyclotomic_squared" + A(name),
                      lambda w, get, e, six=six_coords(name): torus6(w, get, six)))
    return obs


def six_coords(name):
    """position i -> power of w (w^6 = B3), for the degree-six extension written as quadratic over cubic: data[a][b] = w^(a + 2b)"""
    return [0, 2, 4, 1, 3, 5]


def torus6(w, get, pos):
    """The cyclotomic subgroup of K[w]/(w^6 - b) over K is cut out by x*s^3(x) = 1 and x*s^2(x) = ... written with a
    primitive 6th root of unity z (z^2 = z - 1): x * conj(x) = 1 and x * s^4(x) = s^2(x) * 1 (norm to the cubic and quadratic
    subfields).  Membership is quadratic in the coordinates, so 'result = x^2 on the torus' is decided by linear algebra:
    every coordinate of result - x^2 must be a rational linear combination of the quadratic torus equations."""
    from fractions import Fraction
    b = B3
    R = w.R
    xs = [w[f"x{i}"] for i in range(6)]
    co = [None] * 6
    for i, p in enumerate(pos): co[p] = xs[i]
    zero = w.c(0)
    # K(z)[w]: coefficient pairs (p + q z)
    def sig(k):          # w -> z^k w
        tab = {0: (1, 0), 1: (0, 1), 2: (-1, 1), 3: (-1, 0), 4: (0, -1), 5: (1, -1)}
        return [(co[i] * tab[(k * i) % 6][0], co[i] * tab[(k * i) % 6][1]) for i in range(6)]
    def mul(a, c):
        r = [[zero, zero] for _ in range(6)]
        for i in range(6):
            for j in range(6):
                p0, q0 = a[i]; p1, q1 = c[j]
                # (p0+q0 z)(p1+q1 z) = p0p1 - q0q1 + (p0q1+q0p1+q0q1) z
                u = p0 * p1 - q0 * q1; v = p0 * q1 + q0 * p1 + q0 * q1
                f = b if i + j >= 6 else 1
                k = (i + j) % 6
                r[k] = [r[k][0] + u * f, r[k][1] + v * f]
        return r
    eqs = []
    e1 = mul(sig(0), sig(3))
    for k in range(6):
        eqs.append(e1[k][0] - (1 if k == 0 else 0)); eqs.append(e1[k][1])
    e2 = mul(sig(0), sig(2)); t = sig(1)            # x^(p^2 - p + 1) = 1:  x * s^2(x) = s(x)
    for k in range(6):
        eqs.append(e2[k][0] - t[k][0]); eqs.append(e2[k][1] - t[k][1])
    sq = mul(sig(0), sig(0))
    rows = []
    for q in (x.n for x in eqs):
        if q: rows.append({m: Fraction(c) for m, c in q.items()})
    basis = []
    def reduce(v):
        v = dict(v)
        for piv, r in basis:
            if piv in v:
                f = v[piv]
                for m, c in r.items():
                    s = v.get(m, 0) - f * c
                    if s: v[m] = s
                    else: v.pop(m, None)
        return v
    for r in rows:
        r = reduce(r)
        if r:
            piv = max(r); f = r[piv]; r = {m: c / f for m, c in r.items()}
            basis.append((piv, r))
            basis.sort(key=lambda t: -t[0])
    for i, p in enumerate(pos):
        g = get(i)
        d = g - sq[p][0]
        if not d.poly: raise Bad(f"coordinate {i} is not a polynomial in the coordinates")
        v = {m: Fraction(c) for m, c in d.n.items()}
        # iterate reduction to a fixpoint (the basis is triangular after sorting)
        while True:
            v2 = reduce(v)
            if v2 == v: break
            v = v2
        if v: raise Bad(f"coordinate {i} differs from x^2 on the cyclotomic subgroup by {R.show({m: c for m, c in v.items()}, 4)}")


# ------------------------------------------------------------------ powers, square roots: elements abstracted to exponents of a generator
def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.split("\n")))


class Outside(AnalysisError): pass


def group_hooks(mod, N, cyc=True):
    """operator*, operator*=, squared (and cyclotomic_squared, unitary_inversed) act on elements (1, e, 0, ...) = generator^e"""
    H = {}
    dm = demangle(list(mod.fns))
    def ld(I, st, p, i):
        d = I.load(st, absint.D.apply(None, lambda z: absint.padd(z, 8 * i), p), 8, None)
        if not d.leaf: raise AnalysisError("element is not a single value")
        v = d.v
        if isinstance(v, absint.Term): v = v.args[0] if v.op == "c" else v
        if not isinstance(v, (int, float)) and not hasattr(v, "numerator"): raise AnalysisError(f"element component {v}")
        return int(v)
    def el(I, st, p, n):
        c = [ld(I, st, p, i) for i in range(n)]
        if c[0] not in (0, 1) or any(c[2:]): raise Outside("elements are combined by something other than multiplication, squaring and inversion")
        return c[0], c[1]
    def put(I, st, p, n, z, e):
        vals = [z, (e % N if N else e) if z else 0] + [0] * (n - 2)
        for i, v in enumerate(vals):
            I.store(st, absint.D.apply(None, lambda q: absint.padd(q, 8 * i), p), 8, leaf(absint.const_term(None, v)), None)
    for f, d in dm.items():
        m = re.search(r"element_(fp\w+)<[^()]*>::(operator\*=?|squared|cyclotomic_squared|unitary_inversed|inversed)\(", d)
        if not m: continue
        cls, op = m.group(1), m.group(2)
        n = T[cls][1].n
        if op == "inversed":
            def h(I, st, a, loc, name, n=n):
                z1, e1 = el(I, st, a[1], n)
                if not z1: raise Outside("zero is inverted")
                put(I, st, a[0], n, z1, -e1); return leaf(0)
        elif op == "operator*":
            def h(I, st, a, loc, name, n=n):
                z1, e1 = el(I, st, a[1], n); z2, e2 = el(I, st, a[2], n); put(I, st, a[0], n, z1 * z2, e1 + e2); return leaf(0)
        elif op == "operator*=":
            def h(I, st, a, loc, name, n=n):
                z1, e1 = el(I, st, a[0], n); z2, e2 = el(I, st, a[1], n); put(I, st, a[0], n, z1 * z2, e1 + e2); return a[0]
        elif op == "unitary_inversed":
            def h(I, st, a, loc, name, n=n):
                z1, e1 = el(I, st, a[1], n); put(I, st, a[0], n, z1, -e1); return leaf(0)
        else:
            def h(I, st, a, loc, name, n=n):
                z1, e1 = el(I, st, a[1], n); put(I, st, a[0], n, z1, 2 * e1); return leaf(0)
        H[f] = h
    return H


EXPS = list(range(0, 36)) + [63, 64, 65, 127, 128, 1000003, (1 << 40) + 12345, (1 << 64) - 1, 0x123456789abcdef01]


def nlit(v):
    """a multiprecision integer literal"""
    return f"0x{v:x}_cppui_modular{max(1, v.bit_length())}"


def pow_obs():
    obs = []
    for name, (E, F) in T.items():
        ops = [("pow", EXPS)]
        if name in ("fp4", "fp6_2over3", "fp12_2over3over2"): ops.append(("cyclotomic_exp", EXPS))
        for op, ex in ops:
            for x in ex:
                body = f"{E} x = {E}::one(); x.data{deep(F)} = in(1); using namespace boost::multiprecision; put(0, x.{op}({nlit(x)}));"
                def cust(check, o, mod, I, outs, x=x, n=F.n, name=name):
                    got = [const_out(outs, i) for i in range(n)]
                    want = [1, x] + [0] * (n - 2)
                    bad = None if got == want else f"computes the {got[1]}-th power instead of the {x}-th"
                    check.ob(o.key, bad is None, bad or f"exponent {x}", loc_of(o, mod) if bad else None)
                obs.append(Ob(f"{op}/{name}/{x}", body, anchor=f"{op}@{EL}{name}.hpp", tu="pow-" + name, custom=cust))
    for st in ((1, 5), (2, 3), (3, 3), (4, 1)):
        N = st[1] << st[0]
        for name in ("fp2", "fp3"):
            E, F = T[name]
            for x in [0] + list(range(2, N, 2)) + [None]:
                def cust(check, o, mod, I, outs, x=x, n=F.n, N=N):
                    got = [const_out(outs, i) for i in range(n)]
                    if x is None: bad = None if got == [0] * n else f"the square root of zero is reported as {got}"
                    else: bad = None if got[0] == 1 and (2 * got[1] - x) % N == 0 and not any(got[2:]) else f"in a group of order {N}: squaring the result gives g^{2 * got[1] % N}, not g^{x}"
                    check.ob(o.key, bad is None, bad or "square root", loc_of(o, mod) if bad else None)
                o = Ob(f"sqrt/{name}/2^{st[0]}*{st[1]}/{x}", f"const {E} x = {'%s::zero()' % E if x is None else '%s::zero() + mkel<%s>(%d)' % (E, E, x)}; put(0, x.sqrt());", anchor=f"sqrt@{EL}{name}.hpp", tu=f"sqrt-{name}-{st[0]}-{st[1]}", custom=cust)
                o.N = N; o.st = st; obs.append(o)
            for x in list(range(N)) + [None]:
                def cust(check, o, mod, I, outs, x=x):
                    got = const_out(outs, 0); want = 1 if x is None or x % 2 == 0 else 0
                    check.ob(o.key, got == want, "is_square" if got == want else f"in a group of order {N}: is_square(g^{x}) = {got}", loc_of(o, mod) if got != want else None)
                o = Ob(f"is_square/{name}/2^{st[0]}*{st[1]}/{x}", f"const {E} x = {'%s::zero()' % E if x is None else '%s::zero() + mkel<%s>(%d)' % (E, E, x)}; flag(0, x.is_square());", anchor=f"is_square@{EL}{name}.hpp", tu=f"sqrt-{name}-{st[0]}-{st[1]}", custom=cust)
                o.N = N; o.st = st; obs.append(o)
    return obs


def deep(F):
    """member path of coordinate 1"""
    p = ""; 
    while F.U is not K: p += "[0].data"; F = F.U
    return p + "[1]"


def const_out(outs, i):
    if i not in outs: return None
    d = outs[i]
    if not d.leaf: return "ambiguous"
    v = d.v
    if isinstance(v, absint.Term): v = v.args[0] if v.op == "c" else repr(v)
    try: return int(v)
    except Exception: return str(v)


MK = "template<class E> E mkel(int e) { E r = E::zero(); r.data[0] = SF(1); r.data[1] = SF(e); return r; }\n"


def run_pow(c):
    obs = pow_obs()
    bytu = {}
    for o in obs: bytu.setdefault(o.tu, []).append(o)
    tus = []
    for tu, l in bytu.items():
        st = getattr(l[0], "st", (3, 3))
        tus += make_tus(l, prelude(*st) + MK, stub=True, prefix="fw", flags=["-UNDEBUG", "-fno-inline"])
    mods = c.compile_all(tus)
    hk = {}
    def work(o):
        mod = mods[o.tuname]
        N = getattr(o, "N", 0)
        H = group_hooks(mod, N)
        H["vd_in"] = lambda I, st, a, loc, name: leaf(absint.const_term(None, 1))
        sub = Check.__new__(Check); sub.obl = []; sub.samples = []; sub.extra = {}; sub.fns = set(); sub.stats = {}
        absint.FUEL[0] = 60000
        try: I, outs = analyse(mod, o.fn, hooks=H)
        except (absint.OutOfFuel, absint.Endless):
            sub.ob(o.key, False, "does not terminate", loc_of(o, mod)); return None, sub.obl, None
        except Outside as e: sub.ob(o.key, False, str(e), loc_of(o, mod)); return None, sub.obl, None
        except AnalysisError as e: return f"obligation {o.key}: {e}", [], None
        ub = [ev for ev in I.res.events if ev[0] in ("throw",) + BADEV]
        if ub: sub.ob(o.key, False, f"{ub[0][0]} at {fmtloc(ub[0][2])}", loc_of(o, mod))
        else: o.custom(sub, o, mod, I, outs)
        return None, sub.obl, I
    import pickle
    def w2(o):
        err, obl, I = work(o)
        return err, obl, ((sorted(I.stats["functions"]), I.stats["blocks"], I.stats["insts"]) if I else ([], 0, 0))
    broken = None
    for err, obl, fns in pmap(w2, obs):
        broken = broken or err
        c.obl += obl
        c.analysed |= set(fns[0]); c.blocks += fns[1]; c.insts += fns[2]
    if broken: raise Broken(broken)


# ------------------------------------------------------------------ F01: the prime-field wrapper
import vf
from poly import Eval, Ring
FP_FIELDS = {"bls12-381": ("nil/crypto3/algebra/fields/bls12/base_field.hpp", "bls12_base_field<381>"),
             "goldilocks64": ("nil/crypto3/algebra/fields/goldilocks64/base_field.hpp", "goldilocks64_base_field"),
             "curve25519": ("nil/crypto3/algebra/fields/curve25519/base_field.hpp", "curve25519_base_field")}

PRE_FP = """
#include <vf.hpp>
#include <%s>
using namespace nil::crypto3::algebra;
typedef fields::%s FLD;
typedef FLD::value_type E;
typedef E::data_type M;
typedef FLD::integral_type Z;
static E get(int k) { return E(vin<M>(k)); }
static void put(int k, const E &e) { vout(k, e.data); }
static void flag(int k, bool b) { vi_out(k, b); }
using namespace boost::multiprecision;
"""


def field_modulus(tu_src, check):
    pass


def fp_obs(fname):
    obs = []
    A = f"@{EL}fp.hpp"
    def P(key, body, anc, oracle, **kw): obs.append(Ob(f"{key}/{fname}", body, oracle, anchor=anc + A, tu=fname, **kw))
    x, y = (lambda v: v[0]), (lambda v: v[50])
    two = "E x = get(0), y = get(50); const E &cx = x; "
    for op, f in (("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b)):
        P("binary" + op, two + f"put(0, cx {op} y);", "operator" + op, lambda v, f=f: {0: f(v[0], v[50])})
        P(f"compound{op}=", two + f"auto &r = (x {op}= y); put(0, x); put(1, r); put(2, y);", f"operator{op}=", lambda v, f=f: {0: f(v[0], v[50]), 1: f(v[0], v[50]), 2: v[50]})
        P(f"compound-self{op}=", two + f"x {op}= x; put(0, x);", f"operator{op}=", lambda v, f=f: {0: f(v[0], v[0])})
        for n in (0, 1, 2, 77, (1 << 32) - 1):
            t = "unsigned" if n < 3 else "unsigned long"
            P(f"mixed-right{op}{n}", two + f"put(0, cx {op} ({t}){n}u);", f"operator{op}@{EL}operations.hpp#", lambda v, f=f, n=n: {0: f(v[0], v.c(n))})
            P(f"mixed-left{op}{n}", two + f"put(0, ({t}){n}u {op} cx);", f"operator{op}@{EL}operations.hpp#", lambda v, f=f, n=n: {0: f(v.c(n), v[0])})
        P(f"mixed-right{op}number", two + f"put(0, cx {op} Z(12345u));", f"operator{op}@{EL}operations.hpp#", lambda v, f=f: {0: f(v[0], v.c(12345))})
        P(f"mixed-left{op}number", two + f"put(0, Z(12345u) {op} cx);", f"operator{op}@{EL}operations.hpp#", lambda v, f=f: {0: f(v.c(12345), v[0])})
    P("negate", two + "put(0, -cx);", "operator-", lambda v: {0: -v[0]})
    P("doubled", two + "put(0, cx.doubled());", "doubled", lambda v: {0: v[0] * 2})
    P("squared", two + "put(0, cx.squared());", "squared", lambda v: {0: v[0] * v[0]})
    P("inversed", two + "put(0, cx.inversed());", "inversed", lambda v: {0: v.c(1) / v[0]})
    P("preincrement", two + "E &r = ++x; put(0, x); put(1, r);", "operator++", lambda v: {0: v[0] + 1, 1: v[0] + 1})
    P("postincrement", two + "E r = x++; put(0, x); put(1, r);", "operator++", lambda v: {0: v[0] + 1, 1: v[0]})
    P("predecrement", two + "E &r = --x; put(0, x); put(1, r);", "operator--", lambda v: {0: v[0] - 1, 1: v[0] - 1})
    P("postdecrement", two + "E r = x--; put(0, x); put(1, r);", "operator--", lambda v: {0: v[0] - 1, 1: v[0]})
    P("zero-one", "put(0, E::zero()); put(1, E::one()); put(2, E(E::zero())); E z; z = E::one(); put(3, z);", "zero", lambda v: {0: v.c(0), 1: v.c(1), 2: v.c(0), 3: v.c(1)})
    P("increment-leaves-constants", "E z = E::zero(); ++z; E o = E::one(); --o; put(0, E::zero()); put(1, E::one()); put(2, z); put(3, o);", "operator++", lambda v: {0: v.c(0), 1: v.c(1), 2: v.c(1), 3: v.c(0)})
    P("copy", two + "E z(cx); E t(std::move(z)); put(0, z); put(1, t); y = cx; put(2, y); E &s = x; x = s; put(3, x);", "element_fp", lambda v: {i: v[0] for i in range(4)})
    for n in (0, 1, 7, 255, 65537, (1 << 32) - 1, (1 << 63) + 5):
        P(f"from-builtin-{n}", f"put(0, E({n}ul)); E e = {n}ul; put(1, e);", "element_fp", lambda v, n=n: {0: v.c(n), 1: v.c(n)})
    P("from-bool-char", "put(0, E((unsigned char)200)); put(1, E(true)); put(2, E((unsigned short)60000));", "element_fp", lambda v: {0: v.c(200), 1: v.c(1), 2: v.c(60000)})
    P("from-number", "put(0, E(Z(5u))); put(1, E(FLD::modulus)); put(2, E(FLD::modulus - 1u)); put(3, E(0x123456789abcdef0fedcba9876543210ffffffffffffffffeeeeeeeeeeeeeeeeddddddddddddddddccccccccccccccccbbbbbbbbbbbbbbbbaaaaaaaaaaaaaaaa_cppui_modular509));", "element_fp",
      lambda v: {0: v.c(5), 1: v.c(0), 2: v.c(-1), 3: v.c(0x123456789abcdef0fedcba9876543210ffffffffffffffffeeeeeeeeeeeeeeeeddddddddddddddddccccccccccccccccbbbbbbbbbbbbbbbbaaaaaaaaaaaaaaaa)})
    P("from-data", "M m = vin<M>(0); put(0, E(m)); E e(m); put(1, e);", "element_fp", lambda v: {0: v[0], 1: v[0]})
    eq = two + "flag(0, cx == y); flag(1, cx != y); flag(2, y == cx);"
    P("equality/generic", eq, "operator==", lambda v: {0: 0, 1: 1, 2: 0})
    P("equality/same", eq, "operator==", lambda v: {0: 1, 1: 0, 2: 1}, strata=[("same", lambda v: {50: v.v("x0")})])
    P("equality/successor", eq, "operator==", lambda v: {0: 0, 1: 1, 2: 0}, strata=[("successor", lambda v: {50: v.v("x0") + 1})])
    P("equality/opposite", eq, "operator==", lambda v: {0: 0, 1: 1, 2: 0}, strata=[("opposite", lambda v: {50: -v.v("x0")})])
    zz = two + "flag(0, cx.is_zero()); flag(1, cx.is_one());"
    P("is_zero/generic", zz, "is_zero", lambda v: {0: 0, 1: 0})
    for n, (a, b) in ((0, (1, 0)), (1, (0, 1)), (2, (0, 0)), (-1, (0, 0))):
        P(f"is_zero/{n}", zz, "is_zero", lambda v, a=a, b=b: {0: a, 1: b}, strata=[(str(n), lambda v, n=n: {0: v.c(n)})])
    lt = two + "flag(0, cx < y); flag(1, cx > y); flag(2, cx <= y); flag(3, cx >= y);"
    def order(check, o, mod, I, outs):
        bad = None
        for case, want in (("less", (1, 0, 1, 0)), ("greater", (0, 1, 0, 1)), ("equal", (0, 0, 1, 1))):
            R = Ring((), o.p)
            inp = AutoInputs(R)
            if case == "equal": inp["x50"] = inp["x0"]
            a, b = frozenset(inp["x0"].n.items()), frozenset(inp["x50"].n.items())
            e = Eval(R, inp, generic=True, assign={("lt", a, b): case == "less", ("lt", b, a): case == "greater"} if case != "equal" else {("lt", a, b): False})
            for i, w in enumerate(want):
                g = e.value(e.pick(outs[i]))
                if not same(g, w): bad = f"operator {('<', '>', '<=', '>=')[i]} on {case} representatives returns {show(g)}"
        check.ob(o.key, bad is None, bad or "order of the canonical representatives", loc_of(o, mod) if bad else None)
    obs.append(Ob(f"order/{fname}", lt, anchor="operator<" + A, tu=fname, custom=order))
    for n in (0, 1, 2, 3, 5, 13, 64, 1000, (1 << 32) + 1, (1 << 63) + 1, (1 << 64) - 1):
        P(f"pow/builtin/{n}", two + f"put(0, cx.pow({n}ul));", "pow", lambda v, n=n: {0: powv(v.e, v[0], n)})
        P(f"pow/number/{n}", two + f"put(0, cx.pow({nlit(n)}));", "pow", lambda v, n=n: {0: powv(v.e, v[0], n)})
    big = int("123456789abcdef0" * 4, 16) | 1 << 255
    P("pow/number/wide", two + f"put(0, cx.pow({nlit(big)}));", "pow", lambda v: {0: powv(v.e, v[0], big)})
    P("sqrt/generic", two + "put(0, cx.sqrt());", "sqrt", lambda v: {0: v.v(f"sqrt({v[0]!r})")})
    P("sqrt/zero", two + "put(0, cx.sqrt());", "sqrt", lambda v: {0: v.c(0)}, strata=[("zero", lambda v: {0: v.c(0)})])
    P("sqrt/four", "put(0, E(4u).sqrt() * E(4u).sqrt());", "sqrt", lambda v: {0: v.c(4)})
    def issq(check, o, mod, I, outs):
        bad = None
        for val, want in ((1, 1), (-1, 0), (0, 1), (5, 0)):
            R = Ring((), o.p); inp = AutoInputs(R)
            e = Eval(R, inp, generic=True, sub={"pow": lambda ev, t: (Rat(R, R.const(val)) if t.args[1] == (o.p - 1) // 2 and ev.term(t.args[0]).eq(inp["x0"]) else (_ for _ in ()).throw(Bad(f"the power computed is {t.args[1]}, not (p-1)/2")))})
            try: g = e.value(e.pick(outs[0]))
            except Bad as b: bad = str(b); break
            if not same(g, want): bad = f"is_square returns {show(g)} when x^((p-1)/2) = {val}"
        check.ob(o.key, bad is None, bad or "Euler's criterion", loc_of(o, mod) if bad else None)
    obs.append(Ob(f"is_square/{fname}", two + "flag(0, cx.is_square());", anchor="is_square" + A, tu=fname, custom=issq))
    P("hash/equal-elements", "std::hash<E> h; E x = get(0); E y(x); flag(0, h(x) == h(y));", "operator()", lambda v: {0: 1})
    return obs


def powv(e, a, n):
    if n < 1 << 17: return a ** n
    return Rat(e.R, e.R.add_var(f"({a!r})^{n}"))


SUBS = {"pow": lambda e, t: powv(e, e.term(t.args[0]), t.args[1]), "sqrt": lambda e, t: Rat(e.R, e.R.add_var(f"sqrt({e.term(t.args[0])!r})"))}


def F01(c):
    obs = []; tus = []
    for f, (h, t) in FP_FIELDS.items():
        l = fp_obs(f)
        for o in l: o.anchor = re.sub(r"#@.*", "", o.anchor)
        l.append(Ob(f"modulus/{f}", "vout(0, M::mk(0)); typename M::T m = FLD::modulus.m.v; vf_out(1, &m, sizeof(m)); m = FLD::group_order_minus_one_half.m.v; vf_out(2, &m, sizeof(m)); m = E::modulus.m.v; vf_out(3, &m, sizeof(m));", anchor=f"{t.split('<')[0]}@{h}", tu=f))
        tus += make_tus(l, PRE_FP % (h, t), stub=True, flags=["-UNDEBUG"], prefix="fp-"); obs += l
    mods = c.compile_all(tus)
    P = {}
    for o in obs:
        if o.key.startswith("modulus/"):
            I, outs = analyse(mods[o.tuname], o.fn, hooks=vf.HOOKS)
            m = [const_out(outs, i) for i in range(4)]
            P[o.tuname] = m[1]
            ok = vf.is_prime(m[1]) and m[2] == (m[1] - 1) // 2 and m[3] == m[1]
            c.ob(o.key, ok, "prime modulus, (p-1)/2" if ok else f"modulus/half-order constants inconsistent: {m[1]:#x}, {m[2]:#x}", loc_of(o, mods[o.tuname]) if not ok else None)
    for o in obs:
        if o.key.startswith("modulus/"): continue
        o.p = P[o.tuname]
        try: I, outs = analyse(mods[o.tuname], o.fn, hooks=vf.HOOKS)
        except absint.Endless: c.ob(o.key, False, "does not terminate", loc_of(o, mods[o.tuname])); continue
        except AnalysisError as e: raise Broken(f"obligation {o.key}: {e}")
        c.absorb(I)
        one(c, o, mods[o.tuname], I, outs, o.p, (), {"sub": SUBS})


def F02(c):
    run_curve(c, add_mul_obs(), prelude(), stub=True, prefix="f")
    h, t = FP_FIELDS["bls12-381"]
    pre = PRE_FP % (h, t) + "#include <nil/crypto3/algebra/fields/fp2.hpp>\ntypedef fields::fp2<FLD>::value_type E2; static E2 get2(int k) { return E2(get(k), get(k + 1)); }\n"
    A = f"operator()@{EL}fp2.hpp"
    def dep(check, o, mod, I, outs):
        seen = set(); names = set()
        def walk(t):
            if isinstance(t, absint.Term):
                if id(t) in seen: return
                seen.add(id(t))
                if t.op == "in": names.add(t.args[0])
                for x in t.args: walk(x)
        for _, v in outs[0].paths() if hasattr(outs[0], "paths") else [(None, outs[0].v)]: walk(v)
        bad = [x for x in ("x0", "x1") if x not in names]
        check.ob(o.key, not bad, f"the hash does not depend on coordinate {bad}" if bad else "depends on both coordinates", loc_of(o, mod) if bad else None)
    obs = [Ob("hash/equal", "std::hash<E2> h; E2 x = get2(0), y(x); flag(0, h(x) == h(y));", lambda v: {0: 1}, anchor=A),
           Ob("hash/both-coordinates", "std::hash<E2> h; vi_out(0, h(get2(0)));", anchor=A, custom=dep)]
    for o in obs: o.key += "/fp2"
    mods = c.compile_all(make_tus(obs, pre, stub=True, flags=["-UNDEBUG"], prefix="f-hash"))
    for o in obs:
        I, outs = analyse(mods[o.tuname], o.fn, hooks=vf.HOOKS)
        c.absorb(I)
        one(c, o, mods[o.tuname], I, outs, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab, (), {"sub": SUBS})
def F03(c): run_curve(c, inv_obs(), prelude(), stub=True, prefix="f")
def F04(c): run_curve(c, frob_obs(), prelude(), stub=True, prefix="f")
def F05(c): run_curve(c, sparse_obs(), prelude(), stub=True, prefix="f")
def F06(c): run_pow(c)


PROPS = {"F01": F01, "F02": F02, "F03": F03, "F04": F04, "F05": F05, "F06": F06}
