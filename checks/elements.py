"""C04-C06 (and the class-level halves of C01-C03): the group element classes, over symbolic field elements."""
from curves import *

CLS = {  # id: header, form, coordinates, mixed_add, operator-=, conversions
    "sw/jacobian": ("short_weierstrass/jacobian/element_g1", "short_weierstrass", "jacobian", True, True),
    "sw/jacobian_with_a4_0": ("short_weierstrass/jacobian_with_a4_0/element_g1", "short_weierstrass", "jacobian_with_a4_0", True, True),
    "sw/jacobian_with_a4_minus_3": ("short_weierstrass/jacobian_with_a4_minus_3/element_g1", "short_weierstrass", "jacobian_with_a4_minus_3", True, True),
    "sw/projective": ("short_weierstrass/projective/element_g1", "short_weierstrass", "projective", True, True),
    "sw/projective_with_a4_minus_3": ("short_weierstrass/projective_with_a4_minus_3/element_g1", "short_weierstrass", "projective_with_a4_minus_3", True, False),
    "sw/affine": ("short_weierstrass/element_g1_affine", "short_weierstrass", "affine", False, True),
    "te/extended_with_a_minus_1": ("twisted_edwards/extended_with_a_minus_1/element_g1", "twisted_edwards", "extended_with_a_minus_1", True, True),
    "te/inverted": ("twisted_edwards/inverted/element_g1", "twisted_edwards", "inverted", True, True),
    "te/affine": ("twisted_edwards/element_g1_affine", "twisted_edwards", "affine", False, True),
    "mo/affine": ("montgomery/element_g1_affine", "montgomery", "affine", False, True),
}
CLSG = {"g2/inverted": ("edwards/element_g2", None, None, True, True)}          # hand-written classes outside forms/
ALL = {**CLS, **CLSG}
ID = {c: "".join(ch if ch.isalnum() else "_" for ch in c) for c in ALL}
FPATH = {c: CLS[c][0].rsplit("/", 1)[0] + "/" if c in CLS else CLSG[c][0] for c in ALL}

PRE_E = r'''
#include <sf.hpp>
#include <vf_mp.hpp>
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/algebra/curves/forms.hpp>
''' + "".join(f"#include <{CV}{v[0]}.hpp>\n" for v in CLS.values()) + r'''
namespace nd = nil::crypto3::algebra::curves::detail; typedef nil::crypto3::algebra::curves::forms nf; namespace nc = nil::crypto3::algebra::curves::coordinates;
template<class Form> struct HP;
struct HC { template<class C, class F> struct g1_type { typedef HP<F> params_type; typedef nd::curve_element<HP<F>, F, C> value_type; }; };
struct HB { typedef SFfield field_type; static SF a, b, c, d, A, B; static std::array<SF, 2> zero_fill, one_fill; };
template<class Form> struct HP : HB { template<class C> struct group_type { typedef HC curve_type; typedef nd::curve_element<HP<Form>, Form, C> value_type; }; };
SF HB::a, HB::b, HB::c, HB::d, HB::A, HB::B; std::array<SF, 2> HB::zero_fill, HB::one_fill;
inline void setup() { HB::a = in(900); HB::b = in(901); HB::c = in(902); HB::d = in(903); HB::A = in(904); HB::B = in(905);
  HB::zero_fill[0] = in(906); HB::zero_fill[1] = in(907); HB::one_fill[0] = in(910); HB::one_fill[1] = in(911); }
template<class E, class = void> struct Z_ { static void g(E &, int) {} static void p(const E &, int) {} };
template<class E> struct Z_<E, std::void_t<decltype(std::declval<E>().Z)>> { static void g(E &e, int k) { e.Z = in(k); } static void p(const E &e, int k) { out(k, e.Z); } };
template<class E, class = void> struct T_ { static void g(E &, int) {} static void p(const E &, int) {} };
template<class E> struct T_<E, std::void_t<decltype(std::declval<E>().T)>> { static void g(E &e, int k) { e.T = in(k); } static void p(const E &e, int k) { out(k, e.T); } };
template<class E> E get(int k) { E e = E::zero(); e.X = in(k); e.Y = in(k + 1); Z_<E>::g(e, k + 2); T_<E>::g(e, k + 3); return e; }
template<class E> void put(int k, const E &e) { vi_out(k + 8, e.is_zero()); out(k, e.X); out(k + 1, e.Y); Z_<E>::p(e, k + 2); T_<E>::p(e, k + 3); }
''' + "".join(f"typedef nd::curve_element<HP<nf::{v[1]}>, nf::{v[1]}, nc::{v[2]}> {ID[c]};\n" for c, v in CLS.items()) + r'''
template<> mo_affine get<mo_affine>(int k) { return mo_affine(in(k), in(k + 1)); }
template<> void put<mo_affine>(int k, const mo_affine &e) { vi_out(k + 8, e.is_zero()); if (!e.is_zero()) { out(k, e.X); out(k + 1, e.Y); } else { vd_out(k, 0); vd_out(k + 1, 0); } }
'''


def flag(get, i):
    v = get(i)
    if isinstance(v, bool): return v
    if isinstance(v, Rat): return not v.is_zero()
    return bool(v)


def is_O(co, v, zf, fl):
    if co.form == "mo": return fl
    k = co.embed
    if k in (jac_e, prj_e): return v[2].is_zero()
    if k is ext_e: return v[0].is_zero() and v[3].is_zero() and v[1].eq(v[2]) and not v[2].is_zero()
    if k is inv_e: return v[1].is_zero() and v[2].is_zero()
    if co.form == "te" and v[0].is_zero() and v[1].eq(1): return True
    return v[0].eq(zf[0]) and v[1].eq(zf[1])


def expect(co, get, want, zf, base=0, what=""):
    fl = flag(get, base + 8)
    if co.form == "mo" and fl: v = None
    else: v = read(co, get, base)
    O = is_O(co, v, zf, fl)
    if want is None:
        if not O: raise Bad(f"{what}the result should be the point at infinity but is {[show(x)[:60] for x in v]}")
        if not fl: raise Bad(f"{what}the result is the point at infinity but is_zero() denies it")
        return
    if O: raise Bad(f"{what}the result is the point at infinity, the group law requires ({show(want[0])[:80]}, {show(want[1])[:80]})")
    if fl: raise Bad(f"{what}is_zero() holds for a finite point")
    if "Z" in co.names and v[2].is_zero(): raise Bad(f"{what}the result has Z = 0")
    check_point(co, v, want, what)


def ZFS(co):
    """values of the implementation-defined (x, y) pair used for the point at infinity"""
    return co.zfs or (((0, 0), (0, 1)) if co.form in ("sw", "te") else ((0, 1),))


class Strat:
    """pts(w) -> (P, Q, params): each point is a Pt or None (= the point at infinity, built by the body)"""
    def __init__(self, name, pts, want, allowed=lambda w: [], body_o=(False, False), models=None, explore=1):
        self.name = name; self.pts = pts; self.want = want; self.allowed = allowed; self.body_o = body_o; self.explore = explore


def order2(w, co):
    if co.form == "sw": return (w["x1"], w.c(0))
    if co.form == "mo": return (w.c(0), w.c(0))
    return (w.c(0), w.c(-1))


def par(w, co, on): return params(w, co, on)


def order2_params(w, co, P):
    """y = 0 leaves the last Montgomery constant free"""
    if co.form == "mo": return params(w, co)
    if co.form == "te": return params(w, co)
    return params(w, co, P)


def zvars(w, co, ii):
    return [w[f"Z{i}"] for i in ii] if "Z" in co.names else []


def xs(co, w, P):
    if co.form in ("sw", "mo"): return [P.xy[1]]
    r = [P.xy[0], P.xy[1]] if co.embed is inv_e else [P.xy[0]]
    # complete curve (a square, d not a square): 1 +- d x^2 y^2 never vanishes at a curve point
    x, y = P.xy
    a = w.c(co.a) if co.a is not None else w["a"]
    if co.form == "te": r += [a * x * x + y * y - 2, a * x * x + y * y]
    return [q for q in r if not q.is_zero()]


def strata_binary(co, sgn, z2=None):
    """input families of P op Q, op = + (sgn 1) or - (sgn -1)"""
    S = lambda q: q if sgn > 0 else neg_law(co, q)
    zz = (1, 2) if z2 is None else (1,)
    out = []

    def gen(w, two=False):
        if two: p, q, pr = two_on_curve(w, co)
        else: p = q = None; pr = params(w, co)
        return Pt(w, co, 1, p), Pt(w, co, 2, q, z=z2), pr
    out.append(("generic", gen, lambda w, P, Q, pr: add_law(co, pr, P.xy, S(Q.xy)), lambda w, P, Q, pr: excl_add(co, w, P, Q), (0, 0)))

    def eq(w):
        P = Pt(w, co, 1); return P, Pt(w, co, 2, S(P.xy), z=z2), params(w, co, P.xy)
    out.append(("equal", eq, lambda w, P, Q, pr: dbl_law(co, pr, P.xy), lambda w, P, Q, pr: zvars(w, co, zz) + xs(co, w, P), (0, 0)))

    def opp(w):
        P = Pt(w, co, 1); return P, Pt(w, co, 2, S(neg_law(co, P.xy)), z=z2), params(w, co, P.xy)
    out.append(("opposite", opp, lambda w, P, Q, pr: None, lambda w, P, Q, pr: zvars(w, co, zz) + xs(co, w, P), (0, 0)))

    if co.embed is not inv_e:
        def two(w):
            xy = order2(w, co); P = Pt(w, co, 1, xy)
            return P, Pt(w, co, 2, xy, z=z2), order2_params(w, co, xy)
        def all2(w, P, Q, pr):
            r = zvars(w, co, zz)
            if co.form == "sw": r += [P.xy[0] * P.xy[0] * 3 + pr["a"]] + ([P.xy[0]] if co.a == 0 else [])
            if co.form == "mo": r += [pr["B"]]
            return r
        out.append(("order2", two, lambda w, P, Q, pr: None, all2, (0, 0)))
        if co.form == "te":
            def o2l(w):
                Q = Pt(w, co, 2, z=z2); return Pt(w, co, 1, order2(w, co)), Q, params(w, co, Q.xy)
            def o2r(w):
                P = Pt(w, co, 1); return P, Pt(w, co, 2, order2(w, co), z=z2), params(w, co, P.xy)
            out.append(("order2-left", o2l, lambda w, P, Q, pr: add_law(co, pr, P.xy, S(Q.xy)), lambda w, P, Q, pr: zvars(w, co, zz) + xs(co, w, Q), (0, 0)))
            out.append(("order2-right", o2r, lambda w, P, Q, pr: add_law(co, pr, P.xy, S(Q.xy)), lambda w, P, Q, pr: zvars(w, co, zz) + xs(co, w, P), (0, 0)))
    def po(w):
        Q = Pt(w, co, 2, z=z2); return None, Q, params(w, co, Q.xy)
    def qo(w):
        P = Pt(w, co, 1); return P, None, params(w, co, P.xy)
    def oo(w): return None, None, params(w, co)
    out.append(("left-infinity", po, lambda w, P, Q, pr: S(Q.xy), lambda w, P, Q, pr: zvars(w, co, (2,) if z2 is None else ()) + xs(co, w, Q), (1, 0)))
    out.append(("right-infinity", qo, lambda w, P, Q, pr: P.xy, lambda w, P, Q, pr: zvars(w, co, (1,)) + xs(co, w, P), (0, 1)))
    out.append(("both-infinity", oo, lambda w, P, Q, pr: None, lambda w, P, Q, pr: [], (1, 1)))
    return out


def infinity_reps(co, w):
    """other representatives of the point at infinity (inputs), besides zero()"""
    t = w["t"]
    if co.embed is jac_e: return [t * t, t * t * t, w.c(0)]
    if co.embed is prj_e: return [w.c(0), t, w.c(0)]
    if co.embed is ext_e: return [w.c(0), t, t, w.c(0)]
    if co.embed is inv_e: return [t, w.c(0), w.c(0)]
    if co.form == "te": return [w.c(0), w.c(1)]
    return None


def vals(co, w, P, b):
    if P is None:
        r = infinity_reps(co, w)
        return {f"x{b + IDX[n]}": v for n, v in zip(co.names, r)} if r else {}
    return P.inputs(b)


def zf_inputs(w, zf): return {"x906": w.c(zf[0]), "x907": w.c(zf[1])}


def binary_ob(c, key, stmt, sgn, z2=None, result="r", anchor="operator+", keep=True, only=None, alias=False):
    """stmt uses p and q and leaves the result in r"""
    co = COORDS[c]; E = ID[c]; obs = []
    for name, pts, want, allowed, (lo, ro) in strata_binary(co, sgn, z2):
        if only and name not in only: continue
        for zf in ZFS(co):
            reps = [True] if not (lo or ro) else ([True, False] if infinity_reps(co, World({})) else [True])
            if zf != ZFS(co)[0] and not (lo or ro or name in ("opposite", "order2")) and co.form != "te": continue
            for code in reps:
                mkp = lambda v, b, o: f"{E} {v} = " + (f"{E}::zero();" if o and code else f"get<{E}>({b});")
                body = f"setup(); {mkp('p', 0, lo)} {mkp('q', 10, ro)} {stmt} put(0, r);" + (" put(50, q);" if keep else "")

                def mk(two, pts=pts, want=want, allowed=allowed, zf=zf, lo=lo, ro=ro, code=code, name=name):
                    P_ = (lambda w: pts(w, two=True)) if two else pts
                    def inputs(w):
                        P, Q, pr = P_(w)
                        r = {**pin_(pr), **zf_inputs(w, zf)}
                        if not (lo and code): r.update(vals(co, w, P, 0))
                        if not (ro and code): r.update(vals(co, w, Q, 10))
                        return r
                    def verify(w, get, e):
                        P, Q, pr = P_(w)
                        expect(co, get, want(w, P, Q, pr), zf)
                        if keep and Q is not None:
                            for n, v in zip(co.names, Q.vals):
                                if not get(50 + IDX[n]).eq(v): raise Bad(f"the second operand's {n} is modified")
                    def allow(w):
                        P, Q, pr = P_(w)
                        a = list(allowed(w, P, Q, pr))
                        if lo or ro: a.append(w["t"])
                        if name == "order2" and zf == (0, 0) and co.form == "sw": a.append(w["x1"])     # (0,0) is not a curve point
                        return a
                    return Model(inputs, verify, allow, K=Rat if two else FRat, rules=(lambda w: P_(w) and None) if two else None, explore=0 if two else 1)
                ms = [mk(False)] + ([mk(True)] if name == "generic" else [])
                tag = f"{key}/{c}/{name}" + ("" if len(reps) == 1 else ("/zero()" if code else "/representative")) + ("" if len(ZFS(co)) == 1 else f"/inf{zf[0]}{zf[1]}")
                obs.append(Ob(tag, body, anchor=f"{anchor}@{FPATH[c]}", custom=curve_custom(ms)))
    return obs


def unary_ob(c, key, stmt, want, anchor, strata=("generic", "order2", "infinity"), z=None, dst=None, exp=None, keep=False, extra=None, allow_extra=None):
    """stmt uses p, leaves result r (class dst)"""
    co = COORDS[c]; dco = COORDS[dst or c]; E = ID[c]; obs = []
    for name in strata:
        if name == "order2" and co.embed is inv_e: continue
        for zf in ZFS(co):
            inf = name == "infinity"
            reps = [True] if not inf else ([True, False] if infinity_reps(co, World({})) else [True])
            for code in reps:
                body = f"setup(); {E} p = " + (f"{E}::zero();" if inf and code else f"get<{E}>(0);") + f" {stmt} put(0, r);" + (" put(50, p);" if keep else "")
                def pts(w, name=name):
                    if name == "infinity": return None, params(w, co)
                    if name == "order2":
                        xy = order2(w, co); return Pt(w, co, 1, xy, z=z), order2_params(w, co, xy)
                    P = Pt(w, co, 1, z=z); return P, params(w, co, P.xy)
                def inputs(w, pts=pts, code=code, inf=inf, zf=zf):
                    P, pr = pts(w)
                    r = {**pin_(pr), **zf_inputs(w, zf), **(extra(w, pr) if extra else {})}
                    if not (inf and code): r.update(vals(co, w, P, 0))
                    return r
                def verify(w, get, e, pts=pts, zf=zf, name=name):
                    P, pr = pts(w)
                    expect(dco, get, None if P is None else want(name, co, pr, P.xy), zf)
                    if keep and P is not None:
                        for n, v in zip(co.names, P.vals):
                            if not get(50 + IDX[n]).eq(v): raise Bad(f"the operand's {n} is modified")
                def allowed(w, pts=pts, name=name, zf=zf):
                    P, pr = pts(w)
                    r = zvars(w, co, (1,)) if z is None else []
                    if name == "order2" and zf == (0, 0) and co.form == "sw": r.append(w["x1"])
                    if P is None: return r + [w["t"]]
                    if name != "order2": r += xs(co, w, P)
                    elif co.form == "sw": r += [P.xy[0] * P.xy[0] * 3 + pr["a"]] + ([P.xy[0]] if co.a == 0 else [])
                    elif co.form == "mo": r += [pr["B"]]
                    if co.form == "te" and name == "generic": r += [P.xy[1]] if co.embed is inv_e else []
                    return r + (allow_extra(w, P, pr) if allow_extra else [])
                tag = f"{key}/{c}/{name}" + ("" if len(reps) == 1 else ("/zero()" if code else "/representative")) + ("" if len(ZFS(co)) == 1 else f"/inf{zf[0]}{zf[1]}")
                obs.append(Ob(tag, body, anchor=f"{anchor}@{FPATH[c]}", custom=curve_custom([Model(inputs, verify, allowed, explore=1)])))
    return obs


def dblw(name, co, pr, p):
    if name == "order2": return None
    return dbl_law(co, pr, p)


def add_obs(cs=CLS):
    obs = []
    for c in cs:
        obs += binary_ob(c, "plus", f"{ID[c]} r = p + q; put(30, p);", 1)
        obs += binary_ob(c, "plus-assign", f"{ID[c]} r = p; r += q;", 1, anchor="operator+=")
    return obs


def dbl_obs(cs=CLS):
    obs = []
    for c in cs:
        E = ID[c]
        obs += unary_ob(c, "double_inplace", f"{E} r = p; r.double_inplace();", dblw, "double_inplace")
        obs += unary_ob(c, "self-plus-assign", f"{E} r = p; r += r;", dblw, "operator+=")
        obs += unary_ob(c, "self-plus", f"{E} r = p; r = r + r;", dblw, "operator+")
    return obs


def madd_obs(cs=CLS):
    obs = []
    for c in cs:
        if not ALL[c][3]: continue
        obs += binary_ob(c, "mixed_add", f"{ID[c]} r = p; r.mixed_add(q);", 1, z2=1, anchor="mixed_add")
        obs += unary_ob(c, "self-mixed_add", f"{ID[c]} r = p; r.mixed_add(r);", dblw, "mixed_add", z=1)
    return obs


def sub_obs(cs=CLS):
    obs = []
    for c in cs:
        E = ID[c]
        obs += unary_ob(c, "negate", f"{E} r = -p;", lambda n, co, pr, p: neg_law(co, p), "operator-", keep=True)
        obs += binary_ob(c, "minus", f"{E} r = p - q;", -1, anchor="operator-")
        if ALL[c][4]:
            obs += binary_ob(c, "minus-assign", f"{E} r = p; r -= q;", -1, anchor="operator-=")
            obs += unary_ob(c, "self-minus-assign", f"{E} r = p; r -= r;", lambda n, co, pr, p: None, "operator-=")
        obs += unary_ob(c, "copy-assign", f"{E} r = {E}::one(); r = p;", lambda n, co, pr, p: p, "operator=")
        obs += unary_ob(c, "copy", f"{E} r(p);", lambda n, co, pr, p: p, "operator=")
        obs += unary_ob(c, "self-assign", f"{E} r(p); r = *&r;", lambda n, co, pr, p: p, "operator=")
    return obs


def truth_obs(c, key, body, cases, anchor):
    """cases: (name, pts(w) -> (inputs, allowed), wanted truth value)"""
    obs = []
    for name, f, want in cases:
        def verify(w, get, e, want=want):
            for i, wv in (want.items() if isinstance(want, dict) else ((0, want),)):
                if flag(get, i) != wv: raise Bad(f"answer {i} is {not wv}, must be {wv}")
        obs.append(Ob(f"{key}/{c}/{name}", body, anchor=f"{anchor}@{FPATH[c]}",
                      custom=curve_custom([Model(lambda w, f=f: f(w)[0], verify, lambda w, f=f: f(w)[1], explore=1)])))
    return obs


def eq_obs(cs=CLS): return [o for c in cs for zf in ZFS(COORDS[c]) for o in eq_one(c, zf)]


def eq_one(c, zf):
        obs = []
        co = COORDS[c]; E = ID[c]
        body = lambda po, qo: f"setup(); {E} p = " + (f"{E}::zero();" if po else f"get<{E}>(0);") + f" {E} q = " + (f"{E}::zero();" if qo else f"get<{E}>(10);") + " vi_out(0, p == q); vi_out(1, p != q); vi_out(2, q == p);"
        T = {0: True, 1: False, 2: True}; F = {0: False, 1: True, 2: False}
        if True:
            def mk(w, P, Q, pr, P0=None, Q0=None):
                r = {**pin_(pr), **zf_inputs(w, zf)}
                if P is not None: r.update(P.inputs(0))
                elif P0: r.update(vals(co, w, None, 0))
                if Q is not None: r.update(Q.inputs(10))
                elif Q0: r.update(vals(co, w, None, 10))
                return r
            def gen(w):
                P, Q, pr = Pt(w, co, 1), Pt(w, co, 2), params(w, co)
                return mk(w, P, Q, pr), zvars(w, co, (1, 2)) + [P.xy[0] - Q.xy[0], P.xy[1] - Q.xy[1]] + (xs(co, w, P) + xs(co, w, Q) if co.form == "te" else [])
            def same_(w):
                P = Pt(w, co, 1); Q = Pt(w, co, 2, P.xy)
                return mk(w, P, Q, params(w, co, P.xy)), zvars(w, co, (1, 2)) + xs(co, w, P)
            def neg(w):
                P = Pt(w, co, 1); Q = Pt(w, co, 2, neg_law(co, P.xy))
                return mk(w, P, Q, params(w, co, P.xy)), zvars(w, co, (1, 2)) + xs(co, w, P)
            def samex(w):
                P = Pt(w, co, 1); Q = Pt(w, co, 2, (P.xy[0], w["y2"]))
                return mk(w, P, Q, params(w, co)), zvars(w, co, (1, 2)) + xs(co, w, P) + [P.xy[1] - w["y2"], w["y2"]]
            def samey(w):
                P = Pt(w, co, 1); Q = Pt(w, co, 2, (w["x2"], P.xy[1]))
                return mk(w, P, Q, params(w, co)), zvars(w, co, (1, 2)) + xs(co, w, P) + [P.xy[0] - w["x2"], w["x2"]]
            nogood = lambda w, P: ([P.xy[0], P.xy[1]] if co.embed is aff_e and co.form != "mo" else []) + xs(co, w, P) + [w["t"]]
            def po(w, rep=False):
                Q = Pt(w, co, 2); return mk(w, None, Q, params(w, co, Q.xy), P0=rep), zvars(w, co, (2,)) + nogood(w, Q)
            def qo(w, rep=False):
                P = Pt(w, co, 1); return mk(w, P, None, params(w, co, P.xy), Q0=rep), zvars(w, co, (1,)) + nogood(w, P)
            def oo(w, rp=False, rq=False): return mk(w, None, None, params(w, co), P0=rp, Q0=rq), [w["t"]]
            k = "" if len(ZFS(co)) == 1 else f"/inf{zf[0]}{zf[1]}"
            main = [("different", gen, F), ("rescaled", same_, T), ("negated", neg, F), ("same-x", samex, F), ("same-y", samey, F)]
            obs += truth_obs(c, "equality", body(0, 0), [(n + k, f, w_) for n, f, w_ in main], "operator==")
            obs += truth_obs(c, "equality", body(1, 0), [("infinity-vs-point" + k, po, F)], "operator==")
            obs += truth_obs(c, "equality", body(0, 1), [("point-vs-infinity" + k, qo, F)], "operator==")
            obs += truth_obs(c, "equality", body(1, 1), [("infinity-vs-infinity" + k, oo, T)], "operator==")
            if infinity_reps(co, World({})):
                obs += truth_obs(c, "equality", body(0, 0), [("representatives-of-infinity" + k, lambda w, f=oo: f(w, True, True), T), ("representative-vs-point" + k, lambda w, f=po: f(w, True), F),
                                                              ("point-vs-representative" + k, lambda w, f=qo: f(w, True), F)], "operator==")
                obs += truth_obs(c, "equality", body(1, 0), [("zero()-vs-representative" + k, lambda w, f=oo: f(w, False, True), T)], "operator==")
            # identity test and named constants
            zb = f"setup(); {E} p = get<{E}>(0); vi_out(0, p.is_zero());"
            if co.form != "mo":
                def zgen(w):
                    P = Pt(w, co, 1); return mk(w, P, None, params(w, co, P.xy)), zvars(w, co, (1,)) + nogood(w, P)
                cases = [("generic" + k, zgen, False)]
                if infinity_reps(co, World({})): cases.append(("representative" + k, lambda w, f=oo: f(w, True), True))
                if co.embed is aff_e:
                    cases.append(("own-infinity" + k, lambda w: ({**mk(w, None, None, params(w, co)), "x0": w.c(zf[0]), "x1": w.c(zf[1])}, []), True))
                    cases.append(("same-y-as-infinity" + k, lambda w: ({**mk(w, None, None, params(w, co)), "x0": w["x1"], "x1": w.c(zf[1])}, [w["x1"]]), False))
                if co.form == "te" and co.embed is not inv_e:
                    def o2(w):
                        P = Pt(w, co, 1, (w.c(0), w.c(-1))); return mk(w, P, None, params(w, co)), zvars(w, co, (1,))
                    def o4(w):
                        P = Pt(w, co, 1, (w["x1"], w.c(0))); return mk(w, P, None, params(w, co)), zvars(w, co, (1,)) + [w["x1"]]
                    cases += [("order2" + k, o2, False), ("order4" + k, o4, False)]
                obs += truth_obs(c, "is_zero", zb, cases, "is_zero")
            zc = f"setup(); {E} z = {E}::zero(); {E} d; {E} d2{{}}; vi_out(0, z.is_zero()); vi_out(1, d.is_zero()); vi_out(2, z == d); vi_out(3, d2.is_zero()); vi_out(4, z.is_well_formed_());"
            zc = zc.replace(" vi_out(4, z.is_well_formed_());", "")
            obs += truth_obs(c, "identity-element", zc, [("zero" + k, oo, {0: True, 1: True, 2: True, 3: True})], "zero")
            if c in CLSG: return obs
            def gen1(w): return {**pin_(params(w, co)), **zf_inputs(w, zf), "x910": w["gx"], "x911": w["gy"]}
            def gver(w, get, e, zf=zf): expect(co, get, (w["gx"], w["gy"]), zf)
            obs.append(Ob(f"generator/{c}{k}", f"setup(); {E} r = {E}::one(); put(0, r);", anchor=f"one@{FPATH[c]}",
                          custom=curve_custom([Model(gen1, gver, lambda w: [w["gx"], w["gy"]], explore=1)])))
            def two_in(w): return {**pin_(params(w, co)), **zf_inputs(w, zf), "x0": w["gx"], "x1": w["gy"]}
            if co.embed is not ext_e:
                obs.append(Ob(f"from-affine/{c}{k}", f"setup(); {E} r(in(0), in(1)); put(0, r);", anchor=f"curve_element@{FPATH[c]}",
                              custom=curve_custom([Model(two_in, gver, lambda w: [w["gx"], w["gy"]], explore=1)])))
        return obs


CONV = {  # source -> [(method, destination)]
    "sw/jacobian": [("to_affine", "sw/affine"), ("to_projective", "sw/projective")],
    "sw/jacobian_with_a4_0": [("to_affine", "sw/affine"), ("to_projective", "sw/projective")],
    "sw/jacobian_with_a4_minus_3": [("to_affine", "sw/affine"), ("to_projective", "sw/projective")],
    "sw/projective": [("to_affine", "sw/affine")],
    "sw/projective_with_a4_minus_3": [("to_affine", "sw/affine")],
    "sw/affine": [("to_projective", "sw/projective")],
    "te/extended_with_a_minus_1": [("to_affine", "te/affine")],
    "te/inverted": [("to_affine", "te/affine")],
    "te/affine": [("to_affine", "te/affine"), ("to_inverted", "te/inverted"), ("to_extended_with_a_minus_1", "te/extended_with_a_minus_1")],
    "mo/affine": [("to_affine", "mo/affine")],
}
RT = [("te/affine", "to_inverted", "to_affine"), ("te/affine", "to_extended_with_a_minus_1", "to_affine")]


def conv_obs(cs=CLS):
    obs = []
    idw = lambda n, co, pr, p: p
    for c, l in CONV.items():
        if c not in cs: continue
        for m, d in l:
            obs += unary_ob(c, m, f"{ID[d]} r = p.{m}();", idw, m, dst=d, keep=True,
                            strata=("generic", "order2", "infinity") if d != "te/inverted" else ("generic", "infinity"))
    for c, m, m2 in RT:
        obs += unary_ob(c, f"{m}.{m2}", f"auto r = p.{m}().{m2}();", idw, m, strata=("generic", "infinity") if "inv" in m else ("generic", "order2", "infinity"))
    # birational maps: B = s^2 * 4/(a-d) (s the scaling between the two Montgomery models; s = 1 when B = 4/(a-d))
    for scaled in (False, True):
        def mont(w, pr, s):
            B0 = 4 / (pr["a"] - pr["d"])
            return {"A": 2 * (pr["a"] + pr["d"]) / (pr["a"] - pr["d"]), "B": B0 * s * s}
        def S(w): return w["s"] if scaled else w.c(1)
        tag = "scaled" if scaled else "unscaled"
        te, mo = COORDS["te/affine"], COORDS["mo/affine"]
        def ex(w, pr):
            m = mont(w, pr, S(w)); return {f"x{PIX[k]}": v for k, v in m.items()}
        def te_pts(w):
            P = Pt(w, te, 1); return P, params(w, te, P.xy)
        for key, stmt, o in (("to_montgomery", "auto r = p.to_montgomery(); vi_out(60, r.is_well_formed());", False), ("to_montgomery-round-trip", "auto r = p.to_montgomery().to_twisted_edwards();", True)):
            for zf in ZFS(te):
                def inputs(w, zf=zf):
                    P, pr = te_pts(w); return {**P.inputs(0), **pin_(pr), **zf_inputs(w, zf), **ex(w, pr)}
                def verify(w, get, e, o=o, zf=zf):
                    P, pr = te_pts(w); x, y = P.xy
                    if o: expect(te, get, P.xy, zf)
                    else:
                        u = (1 + y) / (1 - y)
                        expect(mo, get, (u, u / (x * S(w))), zf)
                        if not flag(get, 60): raise Bad("the image is not on the Montgomery curve")
                def allowed(w):
                    P, pr = te_pts(w); x, y = P.xy
                    return [x, y - 1, y + 1, pr["a"], pr["d"], pr["a"] - pr["d"], S(w), w.c(1) - S(w) * S(w)] if scaled else [x, y - 1, y + 1, pr["a"] - pr["d"], pr["a"], pr["d"]]
                obs.append(Ob(f"{key}/{tag}/inf{zf[0]}{zf[1]}", f"setup(); te_affine p = get<te_affine>(0); {stmt} put(0, r);", anchor="to_montgomery@twisted_edwards/", custom=curve_custom([Model(inputs, verify, allowed, explore=0)])))
        def mo_pts(w):
            u, v = w["u1"], w["v1"]
            a, d = w["a"], None
            # (a, d) free; B from the point: B v^2 = u^3 + A u^2 + u, with A = 2(a+d)/(a-d), B = s^2 4/(a-d)
            # => solve for d given a, s:  4 s^2 v^2 = (u^3+u)(a-d) + 2 u^2 (a+d)
            s = S(w)
            d = (4 * s * s * v * v - a * (u * u * u + u) - 2 * a * u * u) / (2 * u * u - u * u * u - u)
            pr = {"a": a, "d": d}
            return (u, v), {**pr, **mont(w, pr, s)}
        for key, stmt, o in (("to_twisted_edwards", "auto r = p.to_twisted_edwards(); vi_out(60, r.is_well_formed());", False), ("to_twisted_edwards-round-trip", "auto r = p.to_twisted_edwards().to_montgomery();", True)):
            def inputs(w):
                (u, v), pr = mo_pts(w); return {"x0": u, "x1": v, **pin_(pr), **zf_inputs(w, (0, 1))}
            def verify(w, get, e, o=o):
                (u, v), pr = mo_pts(w)
                if o: expect(mo, get, (u, v), (0, 1))
                else:
                    expect(te, get, (u / (v * S(w)), (u - 1) / (u + 1)), (0, 1))
                    if not flag(get, 60): raise Bad("the image is not on the twisted Edwards curve")
            obs.append(Ob(f"{key}/{tag}", f"setup(); mo_affine p(in(0), in(1)); {stmt} put(0, r);", anchor="to_twisted_edwards@montgomery/", custom=curve_custom([Model(inputs, verify, lambda w: [], explore=0)])))
    for zf in ((0, 0), (0, 1)):
        zin = lambda w, zf=zf: {**pin_({"a": w["a"], "d": w["d"], "A": w["A"], "B": w["B"]}), **zf_inputs(w, zf)}
        obs.append(Ob(f"to_montgomery/infinity/inf{zf[0]}{zf[1]}", "setup(); te_affine p = te_affine::zero(); auto r = p.to_montgomery(); put(0, r);", anchor="to_montgomery@twisted_edwards/",
                      custom=curve_custom([Model(zin, lambda w, get, e, zf=zf: expect(COORDS["mo/affine"], get, None, zf), lambda w: [], explore=0)])))
        obs.append(Ob(f"to_twisted_edwards/infinity/inf{zf[0]}{zf[1]}", "setup(); mo_affine p = mo_affine::zero(); auto r = p.to_twisted_edwards(); put(0, r);", anchor="to_twisted_edwards@montgomery/",
                      custom=curve_custom([Model(zin, lambda w, get, e, zf=zf: expect(COORDS["te/affine"], get, None, zf), lambda w: [], explore=0)])))
    return obs


def wf_obs(cs=CLS): return [o for c in cs if c != "sw/affine" for zf in ZFS(COORDS[c]) for o in wf_one(c, zf)]


def wf_one(c, zf):
        obs = []
        co = COORDS[c]; E = ID[c]
        def curve_poly(w, P, pr):
            x, y = P.xy
            if co.form == "sw": return y * y - x * x * x - pr["a"] * x - pr["b"]
            if co.form == "te": return pr["a"] * x * x + y * y - 1 - pr["d"] * x * x * y * y
            return pr["B"] * y * y - x * x * x - pr["A"] * x * x - x
        if True:
            k = "" if len(ZFS(co)) == 1 else f"/inf{zf[0]}{zf[1]}"
            b = f"setup(); {E} p = get<{E}>(0); vi_out(0, p.is_well_formed());"
            def on(w):
                P = Pt(w, co, 1); return {**P.inputs(0), **pin_(params(w, co, P.xy)), **zf_inputs(w, zf)}, zvars(w, co, (1,)) + xs(co, w, P)
            def off(w):
                P = Pt(w, co, 1); pr = params(w, co)
                return {**P.inputs(0), **pin_(pr), **zf_inputs(w, zf)}, zvars(w, co, (1,)) + xs(co, w, P) + [P.xy[0], P.xy[1], curve_poly(w, P, pr)] + [P.xy[1] - 1]
            cases = [("on-curve" + k, on, True), ("off-curve" + k, off, False)]
            if infinity_reps(co, World({})):
                cases.append(("infinity" + k, lambda w: ({**{f"x{IDX[n]}": v for n, v in zip(co.names, infinity_reps(co, w))}, **pin_(params(w, co)), **zf_inputs(w, zf)}, [w["t"]]), True))
            # tuples on the loci the generic family leaves out
            def xyf(w, x, y): return Pt(w, co, 1, (w[x] if x else w.c(0), w[y] if y else w.c(0)))
            def mkin(w, P, pr): return {**P.inputs(0), **pin_(pr), **zf_inputs(w, zf)}
            if co.embed is not inv_e:
                for nm, x, y in (("x-zero", None, "y1"), ("y-zero", "x1", None)):
                    def deg_off(w, x=x, y=y):
                        P = xyf(w, x, y); pr = params(w, co); v = w[x or y]
                        return mkin(w, P, pr), zvars(w, co, (1,)) + [v, curve_poly(w, P, pr)] + ([v - 1] if y else [])
                    cases.append((f"off-curve/{nm}" + k, deg_off, False))
                    if co.form == "sw":
                        def deg_on(w, x=x, y=y):
                            P = xyf(w, x, y); return mkin(w, P, params(w, co, P.xy)), zvars(w, co, (1,)) + [w[x or y]]
                        cases.append((f"on-curve/{nm}" + k, deg_on, True))
                if co.form in ("te", "mo"):                          # the point of order two
                    cases.append(("order2" + k, lambda w: (mkin(w, Pt(w, co, 1, tuple(w.c(v) for v in ((0, -1) if co.form == "te" else (0, 0)))), params(w, co)), zvars(w, co, (1,))), True))
            if co.embed is inv_e:
                def tup(w, nz):
                    v = {n: w["u" + n] if n in nz else w.c(0) for n in "XYZ"}; pr = params(w, co)
                    A, B, C = v["X"] * v["X"], v["Y"] * v["Y"], v["Z"] * v["Z"]
                    return {**{f"x{IDX[n]}": v[n] for n in "XYZ"}, **pin_(pr), **zf_inputs(w, zf)}, [v[n] for n in nz] + [pr["a"] * B * C + A * C - A * B - pr["d"] * C * C, pr["d"]]
                for nz in ("YZ", "XZ", "XY", "Z"): cases.append((f"off-curve/only-{nz}" + k, lambda w, nz=nz: tup(w, nz), False))
            if co.embed is ext_e:
                def zflat(w):
                    pr = params(w, co); r = {f"x{IDX[n]}": w["u" + n] if n != "Z" else w.c(0) for n in "XYZT"}
                    return {**r, **pin_(pr), **zf_inputs(w, zf)}, [w["uX"], w["uY"], w["uT"]]
                cases.append(("off-curve/Z-zero" + k, zflat, False))
                def tbad(w):
                    P = Pt(w, co, 1); pr = params(w, co, P.xy); i = P.inputs(0); i["x3"] = w["t"]
                    return {**i, **pin_(pr), **zf_inputs(w, zf)}, zvars(w, co, (1,)) + [P.xy[0], P.xy[1], w["t"], w["t"] - P.vals[3], w["t"] + P.vals[3]]
                # off the curve by construction although T^2 matches: T -> -T
                def tneg(w):
                    P = Pt(w, co, 1); pr = params(w, co, P.xy); i = P.inputs(0); i["x3"] = -P.vals[3]
                    return {**i, **pin_(pr), **zf_inputs(w, zf)}, zvars(w, co, (1,)) + [P.xy[0], P.xy[1]]
                cases += [("inconsistent-T" + k, tbad, False), ("negated-T" + k, tneg, False)]
            obs += truth_obs(c, "is_well_formed", b, cases, "is_well_formed")
            obs += truth_obs(c, "is_well_formed", f"setup(); {E} p = {E}::zero(); vi_out(0, p.is_well_formed());", [("zero()" + k, lambda w: ({**pin_(params(w, co)), **zf_inputs(w, zf)}, []), True)], "is_well_formed")
            # the decision is exactly the curve equation: every equality guard is a unit multiple of it (or of the identity test)
            def exact(w, get, e, zf=zf):
                P = Pt(w, co, 1); pr = params(w, co)
                fl = flag(get, 0)
                if e is None: return
                cp = curve_poly(w, P, pr).n
                excl = [x.n for x in zvars(w, co, (1,)) + [P.xy[0], P.xy[1], P.xy[1] - 1]]
                hit = False
                for g in e.guards:
                    q = strip(w.R, g.n, excl)
                    if not q or set(q) == {0}: continue
                    q2 = exact_div(w.R, q, cp)
                    if q2 is None: raise Bad(f"the test depends on {w.R.show(q, 6)} = 0, which is not the curve equation")
                    if set(strip(w.R, q2, excl)) != {0}: raise Bad(f"the test accepts points with {w.R.show(q2, 6)} = 0")
                    hit = True
                if not hit: raise Bad("the curve equation is never tested")
            obs.append(Ob(f"is_well_formed/{c}/exact{k}", b, anchor=f"is_well_formed@{FPATH[c]}",
                          custom=curve_custom([Model(lambda w, off=off: off(w)[0], exact, lambda w: [], explore=0)])))
        return obs


def g2_obs(which):
    """the hand-written Edwards G2 class (a cubic extension with its own multiplication by the twisted coefficients)"""
    c = "g2/inverted"; co = COORDS[c]; A = lambda f: f"{f}@edwards/element_g2"; obs = []
    cst = {"a": 0, "d": 1}
    if which == "const":
        def mul(fn, k):
            def verify(w, get, e):
                for i in range(3):
                    if not get(i).eq((w.c(RHO) if k == "a" else w["d"]) * 3 ** i * w["x0"]): raise Bad(f"{fn} is not multiplication by the twisted coefficient {k} on coordinate {i}")
            body = "setup(); " + " ".join(f"{{ eg::S1 z = SF::mk(0.0), t = SF::mk(1.0); eg::Q3 e({', '.join('t' if j == i else 'z' for j in range(3))}); out({i}, SF::mk(g2_inverted::{fn}(e).s.data * vd_in(0))); }}" for i in range(3))
            obs.append(Ob(f"{fn}/{c}", body, anchor=A(fn), custom=curve_custom([Model(lambda w: {"x903": w["d"]}, verify, lambda w: [], explore=0)])))
        mul("mul_by_a", "a"); mul("mul_by_d", "d")
        def one(w, get, e):
            for i, v in enumerate((31, 37, 41)):
                if not get(i).eq(v): raise Bad(f"one() is not the parameters' generator (coordinate {i})")
        obs.append(Ob(f"generator/{c}", "setup(); g2_inverted r = g2_inverted::one(); put(0, r);", anchor=A("one"), custom=curve_custom([Model(lambda w: {}, one, lambda w: [], explore=0)])))
    if which == "conv":
        def pt(w):
            P = Pt(w, co, 1); return P, params(w, co, P.xy)
        def inputs(w):
            P, pr = pt(w); return {**P.inputs(0), **pin_(pr)}
        def aff(w, get, e):
            P, pr = pt(w)
            for i in range(2):
                if not get(i).eq(P.xy[i]): raise Bad(f"affine {'xy'[i]} is {show(get(i))[:120]}")
            if not get(2).eq(1): raise Bad("Z of the affine representation is not one")
        def prj(w, get, e):
            P, pr = pt(w); expect(co, get, P.xy, (0, 1))
            if not get(2).eq(1): raise Bad("Z of the normalised representation is not one")
        al = lambda w: [w["Z1"]] + xs(co, w, pt(w)[0])
        obs.append(Ob(f"to_affine/{c}/generic", "setup(); g2_inverted p = get<g2_inverted>(0), r = p.to_affine(); put(0, r);", anchor=A("to_affine"), custom=curve_custom([Model(inputs, aff, al, explore=1)])))
        obs.append(Ob(f"to_projective/{c}/generic", "setup(); g2_inverted p = get<g2_inverted>(0), r = p.to_projective(); put(0, r);", anchor=A("to_projective"), custom=curve_custom([Model(inputs, prj, al, explore=1)])))
        def affO(w, get, e):
            for i, v in enumerate((0, 1, 1)):
                if not get(i).eq(v): raise Bad("the identity's affine representation is not (0, 1)")
        def prjO(w, get, e):
            if not flag(get, 8): raise Bad("the normalised identity is not the identity")
        for nm, mkp in (("zero()", "g2_inverted::zero()"), ("representative", "get<g2_inverted>(0)")):
            inp = lambda w: {"x0": w["t"], "x1": w.c(0), "x2": w.c(0), **pin_(params(w, co))}
            obs.append(Ob(f"to_affine/{c}/infinity/{nm}", f"setup(); g2_inverted p = {mkp}, r = p.to_affine(); put(0, r);", anchor=A("to_affine"), custom=curve_custom([Model(inp, affO, lambda w: [w["t"]], explore=0)])))
            obs.append(Ob(f"to_projective/{c}/infinity/{nm}", f"setup(); g2_inverted p = {mkp}, r = p.to_projective(); put(0, r);", anchor=A("to_projective"), custom=curve_custom([Model(inp, prjO, lambda w: [w["t"]], explore=0)])))
    return obs


def E01(c): run_mixed(c, formula_obs(("add",)), add_obs(), add_obs(CLSG))
def E02(c): run_mixed(c, formula_obs(("dbl",)), dbl_obs(), dbl_obs(CLSG))
def E03(c): run_mixed(c, formula_obs(("madd",)), madd_obs(), madd_obs(CLSG))
def E04(c): run_mixed(c, [], sub_obs() + eq_obs(), sub_obs(CLSG) + eq_obs(CLSG) + g2_obs("const"))
def E05(c): run_mixed(c, [], conv_obs(), g2_obs("conv"))
def E06(c): run_mixed(c, [], wf_obs(), wf_obs(CLSG))


def run_mixed(c, fo, eo, go=()):
    broken = None
    for obs, pre, kw in ((fo, formula_prelude(FORMULA), {}), (eo, PRE_E, dict(stub=True, prefix="e")), (go, "#include <edg2.hpp>\n", dict(stub=True, prefix="g"))):
        if not obs: continue
        try: run_curve(c, list(obs), pre, **kw)
        except Broken as b: broken = broken or b
    if broken: raise broken


PROPS = {"C01": E01, "C02": E02, "C03": E03, "C04": E04, "C05": E05, "C06": E06}
