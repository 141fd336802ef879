"""C01-C06: group law of every coordinate system, at the level of the addition/doubling formulas and of the element classes."""
from core import *
from harn import *
from absint import AnalysisError, leaf, term, as_term, D
import absint, poly
from poly import FRat, Rat, Ring, BITS, DivZero, NeedSplit, exact_div

CV = "nil/crypto3/algebra/curves/detail/forms/"
PRE_F = '#include <sf.hpp>\n'
PRE_C = r'''
#include <vf_mp.hpp>
#include <sf.hpp>
#include <type_traits>
'''


MAGIC = {1000033: "x903"}; RHO = 3       # harness/edg2.hpp: the base-field d; the twist


class Case(Exception): pass


class KEval(poly.Eval):
    """evaluation with factored rational functions; remembers every generic guard and inverted quantity"""
    def __init__(self, R, inputs, K=FRat, **kw):
        super().__init__(R, inputs, **kw); self.K = K; self.guards = []

    def op(self, x):
        if x.op == "c":
            v = x.args[0]; k = None
            for m, n in MAGIC.items():                      # constants of harness/edg2.hpp that stand for curve parameters
                while v and v % m == 0:
                    if n not in self.inputs: break
                    f = self.inputs[n] / RHO; k = f if k is None else k * f; v = v / m
            r = self.K(self.R, self.R.const(v))
            return r if k is None else r * k
        if x.op == "sqrt":
            v = self.memo[x.args[0].id]; s = self.w["s"]
            for r in (self.w.c(1), 1 / s, s):
                if (r * r).eq(v): return r
            raise Bad(f"square root of {show(v)[:80]}, which is not the scaling between the two Montgomery models")
        if x.op in ("div", "inv"):
            b = self.memo[x.args[-1].id]
            if b.is_zero(): raise DivZero(x)
            self.guards.append(b)
            return b.inv() if x.op == "inv" else self.memo[x.args[0].id] / b
        return super().op(x)

    def atom1(self, kind, p, args, var):
        r = super().atom1(kind, p, args, var)
        if kind == "eq" and r is False:
            try: self.guards.append(self.term(args[0]) - self.term(args[1]))
            except AnalysisError: pass
        return r


class World:
    """one stratum: base variables (possibly substituted) and the ring they live in"""
    def __init__(self, sub, K=FRat, rules=None):
        self.R = Ring((), None); self.K = K; self.sub = sub; self.seen = {}
        self.R.LIMIT = 400000
        if rules: rules(self)

    def __getitem__(self, n):
        if n not in self.seen:
            s = self.sub.get(n)
            self.seen[n] = s(self) if s else self.K(self.R, self.R.add_var(n))
        return self.seen[n]

    def c(self, k): return self.K(self.R, self.R.const(k))


def primitive_guards(g):
    out = []
    for b in g:
        q = b.n
        if q and set(q) != {0}: out.append(q)
    return out


def strip(R, q, allowed):
    for a in allowed:
        if not a or set(a) == {0}: continue
        while True:
            d = exact_div(R, q, a)
            if d is None: break
            q = d
            if set(q) == {0}: return q
    return q


def linear_var(R, q):
    """a variable of degree one in q: (name, A, B) with q = A*v + B"""
    M = (1 << BITS) - 1
    best = None
    for i, n in enumerate(R.names):
        s = BITS * i
        ds = {(m >> s) & M for m in q}
        if ds <= {0, 1} and 1 in ds:
            A = {m - (1 << s): c for m, c in q.items() if (m >> s) & M}
            B = {m: c for m, c in q.items() if not (m >> s) & M}
            if best is None or len(A) < len(best[1]): best = (n, A, B)
    return best


def mono_factors(R, q):
    """split off variables dividing q: ([names], rest)"""
    M = (1 << BITS) - 1; out = []
    for i, n in enumerate(R.names):
        s = BITS * i
        low = min((m >> s) & M for m in q)
        if low:
            out.append(n); q = {m - (low << s): c for m, c in q.items()}
    return out, q


class Model:
    """inputs(w) -> {input name: value}; expect(w, get) -> list of (what, got, want) ; allowed(w) -> excluded loci"""
    def __init__(self, inputs, verify, allowed=lambda w: (), K=FRat, rules=None, explore=2):
        self.inputs = inputs; self.verify = verify; self.allowed = allowed; self.K = K; self.rules = rules; self.explore = explore


class Bad(Exception): pass


def run_model(o, I, outs, m, sub, depth, name, notes, done):
    w = World(sub, m.K, m.rules)
    try:
        inp = AutoDict(w, m.inputs(w))
        allowed = [a.n for a in m.allowed(w)]
    except ZeroDivisionError:
        return
    if any(not a for a in allowed): return
    e = KEval(w.R, inp, K=m.K, generic=True); e.w = w
    thr = [ev for ev in I.res.events if ev[0] in ("throw",) + BADEV]
    exp = None
    try:
        for ev in thr:
            if e.bool(ev[1]): raise Bad(f"{ev[0]} {ev[3]} at {fmtloc(ev[2])}")
        def get(i, opt=False):
            if i not in outs:
                raise Bad(f"output {i} is never produced")
            d = e.pick(outs[i])
            if isinstance(d.v, Undef): raise Bad(f"output {i} is an uninitialised value")
            return e.value(d)
        try:
            m.verify(w, get, e)
        except ZeroDivisionError:
            if sub: return          # the specification itself is undefined here
            raise Bad("the result has a vanishing denominator")
    except DivZero:
        if sub and not spec_defined(m, w): return
        raise Bad(f"division by zero{where_sub(name)}")
    except Bad as b:
        raise Bad(str(b) + where_sub(name))
    done.append(name)
    if depth <= 0: return
    todo = {}
    for q in primitive_guards(e.guards):
        q = strip(w.R, q, allowed)
        if set(q) == {0}: continue
        vs, q = mono_factors(w.R, q)
        for v in vs: todo.setdefault(frozenset({(1 << (BITS * w.R.ix[v]), 1)}), None)
        if set(q) == {0}: continue
        q, _ = w.R.content_normal(q)
        todo.setdefault(frozenset(q.items()), None)
    for fq in todo:
        q = dict(fq)
        lv = linear_var(w.R, q)
        if lv is None or (m.rules and lv[0] in getattr(w, "ruled", ())):
            notes.append(f"{name or 'generic'}: locus {w.R.show(q, 3)} = 0 not explored"); continue
        n, A, B = lv
        names = list(w.R.names)
        def f(w2, n=n, A=A, B=B, names=names):
            def ev(q):
                t = w2.c(0)
                for mo, c in q.items():
                    r = w2.c(c)
                    for i, nm in enumerate(names):
                        k = (mo >> (BITS * i)) & ((1 << BITS) - 1)
                        if k: r = r * w2[nm] ** k
                    t = t + r
                return t
            return -ev(B) / ev(A)
        if n in sub: continue
        s2 = dict(sub); s2[n] = f
        run_model(o, I, outs, m, s2, depth - 1, (name + " & " if name else "") + w.R.show(q, 4) + " = 0", notes, done)


def where_sub(name): return f"  (on the locus {name})" if name else ""


def spec_defined(m, w):
    try:
        m.verify(w, lambda i, opt=False: (_ for _ in ()).throw(Case()), None)
    except Case: return True
    except ZeroDivisionError: return False
    except Exception: return True
    return True


class AutoDict(dict):
    def __init__(self, w, d): super().__init__(d); self.w = w
    def get(self, k, d=None): return self[k]
    def __missing__(self, k):
        r = self.w[k]; self[k] = r
        return r


def curve_custom(models):
    """proved if some model (a way of stating 'these are points on the curve') proves every stratum"""
    def f(check, o, mod, I, outs):
        err = None; notes = []
        for m in models:
            notes = []; done = []
            try:
                run_model(o, I, outs, m, {}, m.explore, "", notes, done)
                err = None; break
            except Bad as b: err = err or str(b)
            except poly.TooBig as b: err = err or f"polynomial too large ({b})"
        if err and "too large" in err: raise Broken(f"{o.key}: {err}")
        check.extra["loci_explored"] = check.extra.get("loci_explored", 0) + len(done)
        if notes: check.extra.setdefault("loci_not_explored", []).extend(f"{o.key}: {n}" for n in notes[:3])
        check.ob(o.key, err is None, err or f"proved on the generic stratum and {len(done) - 1} guard loci", loc_of(o, mod) if err else None,
                 sample=f"{o.key}: {o.body.strip()[:140]}" if err is None and len(check.samples) < 8 else None)
    return f


# ------------------------------------------------------------------ curve models
def sw_add(p, q):
    (x1, y1), (x2, y2) = p, q
    l = (y2 - y1) / (x2 - x1)
    x3 = l * l - x1 - x2
    return x3, l * (x1 - x3) - y1


def sw_dbl(p, a):
    x, y = p
    l = (x * x * 3 + a) / (y * 2)
    x3 = l * l - x * 2
    return x3, l * (x - x3) - y


def te_add(p, q, a, d):
    (x1, y1), (x2, y2) = p, q
    k = d * x1 * x2 * y1 * y2
    return (x1 * y2 + y1 * x2) / (1 + k), (y1 * y2 - a * x1 * x2) / (1 - k)


def ed_add(p, q, c, d):
    (x1, y1), (x2, y2) = p, q
    k = d * x1 * x2 * y1 * y2
    return (x1 * y2 + y1 * x2) / (c * (1 + k)), (y1 * y2 - x1 * x2) / (c * (1 - k))


def mo_add(p, q, A, B):
    (x1, y1), (x2, y2) = p, q
    l = (y2 - y1) / (x2 - x1)
    x3 = B * l * l - A - x1 - x2
    return x3, l * (x1 - x3) - y1


def mo_dbl(p, A, B):
    x, y = p
    l = (x * x * 3 + A * x * 2 + 1) / (B * y * 2)
    x3 = B * l * l - A - x * 2
    return x3, l * (x - x3) - y


class Coord:
    """how (x, y) is represented; names: coordinate members in slot order"""
    def __init__(self, form, names, embed, decode, a=None, zfs=None):
        self.form = form; self.names = names; self.embed = embed; self.decode = decode; self.a = a; self.zfs = zfs


def jac_e(x, y, z): return [x * z * z, y * z * z * z, z]
def jac_d(c): return c[0] / (c[2] * c[2]), c[1] / (c[2] * c[2] * c[2])
def prj_e(x, y, z): return [x * z, y * z, z]
def prj_d(c): return c[0] / c[2], c[1] / c[2]
def inv_e(u, v, z): return [u * z, v * z, z]
def inv_d(c): return c[2] / c[0], c[2] / c[1]
def ext_e(x, y, z): return [x * z, y * z, z, x * y * z]
def ext_d(c): return c[0] / c[2], c[1] / c[2]
def aff_e(x, y, z): return [x, y]
def aff_d(c): return c[0], c[1]


COORDS = {
    "sw/jacobian": Coord("sw", "XYZ", jac_e, jac_d),
    "sw/jacobian_with_a4_0": Coord("sw", "XYZ", jac_e, jac_d, a=0),
    "sw/jacobian_with_a4_minus_3": Coord("sw", "XYZ", jac_e, jac_d, a=-3),
    "sw/projective": Coord("sw", "XYZ", prj_e, prj_d),
    "sw/projective_with_a4_minus_3": Coord("sw", "XYZ", prj_e, prj_d, a=-3),
    "sw/affine": Coord("sw", "XY", aff_e, aff_d),
    "te/extended_with_a_minus_1": Coord("te", "XYZT", ext_e, ext_d, a=-1),
    "te/inverted": Coord("te", "XYZ", inv_e, inv_d),
    "te/affine": Coord("te", "XY", aff_e, aff_d),
    "g2/inverted": Coord("te", "XYZ", inv_e, inv_d, a=3, zfs=((0, 1),)),   # a = 1 times the twist RHO; d the twisted coefficient
    "ed/inverted": Coord("ed", "XYZ", inv_e, inv_d),
    "mo/affine": Coord("mo", "XY", aff_e, aff_d),
}
IDX = {"X": 0, "Y": 1, "Z": 2, "T": 3}


class Pt:
    """symbolic point i of coordinate system co in world w (base variables x_i, y_i, Z_i)"""
    def __init__(self, w, co, i, xy=None, z=None):
        self.co = co
        zz = w[f"Z{i}"] if z is None else (w.c(z) if isinstance(z, int) else z)
        if xy is None: xy = (w[f"x{i}"], w[f"y{i}"])
        self.xy = xy; self.z = zz
        if co.embed is inv_e: self.vals = inv_e(1 / xy[0], 1 / xy[1], zz)
        else: self.vals = co.embed(xy[0], xy[1], zz)

    def inputs(self, b): return {f"x{b + IDX[n]}": v for n, v in zip(self.co.names, self.vals)}


def read(co, get, b=0): return [get(b + IDX[n]) for n in co.names]


def check_point(co, got, want, what=""):
    vals = got
    if co.names == "XYZT" and not (vals[0] * vals[1]).eq(vals[2] * vals[3]):
        raise Bad(f"{what}the auxiliary coordinate is inconsistent (T*Z differs from X*Y)")
    x, y = co.decode(vals)
    for n, g, r in (("x", x, want[0]), ("y", y, want[1])):
        if not g.eq(r): raise Bad(f"{what}affine {n} of the result is {show(g)[:160]}, the group law requires {show(r)[:160]}")


def params(w, co, on=None):
    """curve constants; on = point whose curve equation determines the last constant"""
    r = {}
    if co.form == "sw":
        r["a"] = w.c(co.a) if co.a is not None else w["a"]
        if on is not None:
            x, y = on
            r["b"] = y * y - x * x * x - r["a"] * x
        else: r["b"] = w["b"]
    elif co.form == "te":
        r["a"] = w.c(co.a) if co.a is not None else w["a"]
        if on is not None:
            x, y = on
            r["d"] = (r["a"] * x * x + y * y - 1) / (x * x * y * y)
        else: r["d"] = w["d"]
    elif co.form == "ed":
        r["c"] = w["c"]
        if on is not None:
            x, y = on
            r["d"] = ((x * x + y * y) / (r["c"] * r["c"]) - 1) / (x * x * y * y)
        else: r["d"] = w["d"]
    else:
        r["A"] = w["A"]
        if on is not None:
            x, y = on
            r["B"] = (x * x * x + r["A"] * x * x + x) / (y * y)
        else: r["B"] = w["B"]
    return r


PIX = {"a": 900, "b": 901, "c": 902, "d": 903, "A": 904, "B": 905}


def pin_(pr): return {f"x{PIX[k]}": v for k, v in pr.items()}


def add_law(co, pr, p, q):
    if co.form == "sw": return sw_add(p, q)
    if co.form == "te": return te_add(p, q, pr["a"], pr["d"])
    if co.form == "ed": return ed_add(p, q, pr["c"], pr["d"])
    return mo_add(p, q, pr["A"], pr["B"])


def dbl_law(co, pr, p):
    if co.form == "sw": return sw_dbl(p, pr["a"])
    if co.form == "te": return te_add(p, p, pr["a"], pr["d"])
    if co.form == "ed": return ed_add(p, p, pr["c"], pr["d"])
    return mo_dbl(p, pr["A"], pr["B"])


def neg_law(co, p):
    return (p[0], -p[1]) if co.form in ("sw", "mo") else (-p[0], p[1])


def two_on_curve(w, co):
    """second model: both points satisfy the curve equation; returns (p, q, params)"""
    R = w.R
    def rule(name, polyrat):
        R.rule(name, 2, polyrat.n)
        w.ruled = getattr(w, "ruled", ()) + (name,)
    if co.form == "sw":
        a = w.c(co.a) if co.a is not None else w["a"]; b = w["b"]
        x1, y1, x2, y2 = (w[n] for n in ("x1", "y1", "x2", "y2"))
        if not R.rules:
            rule("y1", x1 * x1 * x1 + a * x1 + b); rule("y2", x2 * x2 * x2 + a * x2 + b)
        return (x1, y1), (x2, y2), {"a": a, "b": b}
    if co.form in ("te", "ed"):
        u1, v1, v2, s2 = (w[n] for n in ("u1", "v1", "v2", "s2"))
        if co.form == "te":
            a = w.c(co.a) if co.a is not None else w["a"]
            d = a * v1 * v1 + u1 * u1 - u1 * u1 * v1 * v1
            k = 1 - v2 * v2
            if not R.rules: rule("s2", (d - a * v2 * v2) * k)
            return (1 / u1, 1 / v1), (k / s2, 1 / v2), {"a": a, "d": d}
        c = w["c"]; cc = c * c
        D_ = u1 * u1 + v1 * v1 - cc * u1 * u1 * v1 * v1      # c^2 d
        k = 1 - cc * v2 * v2
        if not R.rules: rule("s2", (D_ - v2 * v2) * k)
        return (1 / u1, 1 / v1), (k / s2, 1 / v2), {"c": c, "d": D_ / cc}
    A = w["A"]; x1, y1, x2, t = (w[n] for n in ("x1", "y1", "x2", "t2"))
    f = lambda x: x * x * x + A * x * x + x
    if not R.rules: rule("t2", f(x1) * f(x2))
    return (x1, y1), (x2, y1 * t / f(x1)), {"A": A, "B": f(x1) / (y1 * y1)}


def excl_add(co, w, P, Q):
    r = [P.z, Q.z] if "Z" in co.names else []
    if co.form in ("sw", "mo"): r += [P.xy[0] - Q.xy[0]]
    else:
        r += [P.xy[0], P.xy[1], Q.xy[0], Q.xy[1]] if co.embed is inv_e else []
    return r


def binary_models(co, law, z2=None, extra=None, base1=0, base2=10):
    """models of a two-operand operation on generic points"""
    ms = []
    def mk(two):
        def pts(w):
            if two: p, q, pr = two_on_curve(w, co)
            else:
                p = q = None; pr = params(w, co)
            return Pt(w, co, 1, p), Pt(w, co, 2, q, z=z2), pr
        def inputs(w):
            P, Q, pr = pts(w)
            return {**P.inputs(base1), **Q.inputs(base2), **pin_(pr), **(extra(w) if extra else {})}
        def verify(w, get, e):
            P, Q, pr = pts(w)
            want = law(co, pr, P.xy, Q.xy)
            check_point(co, read(co, get), want)
            if e is not None: e.guards.extend(dec_guards(co, read(co, get)))
        def allowed(w):
            P, Q, pr = pts(w)
            return excl_add(co, w, P, Q)
        return Model(inputs, verify, allowed, K=Rat if two else FRat, rules=(lambda w: pts(w)) if two else None, explore=0 if two else 1)
    return [mk(False), mk(True)]


def dec_guards(co, vals):
    if co.embed is inv_e: return [vals[0], vals[1]]
    if "Z" in co.names: return [vals[2]]
    return []


def unary_models(co, law, z=None, on=True, extra=None):
    def pts(w):
        P = Pt(w, co, 1, z=z)
        return P, params(w, co, P.xy if on else None)
    def inputs(w):
        P, pr = pts(w)
        return {**P.inputs(0), **pin_(pr), **(extra(w) if extra else {})}
    def verify(w, get, e):
        P, pr = pts(w)
        check_point(co, read(co, get), law(co, pr, P.xy))
        if e is not None: e.guards.extend(dec_guards(co, read(co, get)))
    def allowed(w):
        P, pr = pts(w)
        r = [P.z] if "Z" in co.names else []
        if co.form in ("sw", "mo"): r.append(P.xy[1])
        elif co.embed is inv_e: r += [P.xy[0], P.xy[1]]
        return r
    return [Model(inputs, verify, allowed, explore=1)]


# ------------------------------------------------------------------ formula structs
FORMULA = {
    "sw/jacobian": ("short_weierstrass/jacobian", "add_2007_bl", "dbl_2007_bl", "madd_2007_bl", "short_weierstrass_element_g1_jacobian"),
    "sw/jacobian_with_a4_0": ("short_weierstrass/jacobian_with_a4_0", "add_2007_bl", "dbl_2009_l", "madd_2007_bl", "short_weierstrass_element_g1_jacobian_with_a4_0"),
    "sw/jacobian_with_a4_minus_3": ("short_weierstrass/jacobian_with_a4_minus_3", "add_2007_bl", "dbl_2007_bl", "madd_2007_bl", "short_weierstrass_element_g1_jacobian_with_a4_minus_3"),
    "sw/projective": ("short_weierstrass/projective", "add_1998_cmo_2", "dbl_2007_bl", None, "short_weierstrass_element_g1_projective"),
    "sw/projective_with_a4_minus_3": ("short_weierstrass/projective_with_a4_minus_3", "add_1998_cmo_2", "dbl_2007_bl", None, "short_weierstrass_element_g1_projective_with_a4_minus_3"),
    "te/extended_with_a_minus_1": ("twisted_edwards/extended_with_a_minus_1", "add_2008_hwcd_3", "dbl_2008_hwcd", "madd_2008_hwcd_2", "twisted_edwards_element_g1_extended_with_a_minus_1"),
    "te/inverted": ("twisted_edwards/inverted", "add_2008_bbjlp", "dbl_2008_bbjlp", "madd_2008_bbjlp", "twisted_edwards_element_g1_inverted"),
    "ed/inverted": ("edwards/inverted", "add_2007_bl", "dbl_2007_bl", "madd_2007_bl", "edwards_element_g1_inverted"),
}
ZERO_TEST = {"sw": "Z.is_zero()", "ext": "X.is_zero() && T.is_zero() && Y == Z", "inv": "Y.is_zero() && Z.is_zero()"}

FPRE = PRE_F + r'''
namespace D = nil::crypto3::algebra::curves::detail;
struct PA { typedef SFfield field_type; static SF a, b, c, d, A, B; };
SF PA::a, PA::b, PA::c, PA::d, PA::A, PA::B;
inline void setup() { PA::a = in(900); PA::b = in(901); PA::c = in(902); PA::d = in(903); PA::A = in(904); PA::B = in(905); }
#define ELEM(NAME, ZT) struct NAME { typedef SFfield field_type; typedef PA params_type; SF X, Y, Z, T; bool is_zero() const { return ZT; } \
  void get(int k) { X = in(k); Y = in(k + 1); Z = in(k + 2); T = in(k + 3); } void put(int k) const { out(k, X); out(k + 1, Y); out(k + 2, Z); out(k + 3, T); } \
  NAME() = default; NAME(const SF &x, const SF &y) : X(x), Y(y), Z(1) { T = x * y; } NAME(const SF &x, const SF &y, const SF &z) : X(x), Y(y), Z(z) {} \
  NAME(const SF &x, const SF &y, const SF &t, const SF &z) : X(x), Y(y), Z(z), T(t) {} \
  static NAME zero() { return NAME(); } };
'''


def kind(co): return "sw" if co.form == "sw" else ("ext" if co.embed is ext_e else "inv")


def formula_prelude(cs):
    s = FPRE
    s = "".join(f"#include <{CV}{FORMULA[c][0]}/{f}.hpp>\n" for c in cs for f in FORMULA[c][1:4] if f) + s
    s = "#include <cassert>\n#include <cstddef>\n" + s
    for k, z in ZERO_TEST.items(): s += f"ELEM(E_{k}, ({z}))\n"
    return s


def still_there(b):
    """the second operand is left alone: re-emitted at 50.."""
    return b


def formula_obs(which):
    obs = []
    for c, (path, fadd, fdbl, fmadd, pre) in FORMULA.items():
        co = COORDS[c]; k = kind(co); E = f"E_{k}"
        anchor = lambda f: f"process@{path}/{f}"
        two = lambda fn: f"setup(); {E} p, q; p.get(0); q.get(10); D::{pre}_{fn}::process(p, q); p.put(0); q.put(50);"
        one = lambda fn: f"setup(); {E} p; p.get(0); D::{pre}_{fn}::process(p); p.put(0);"
        if "add" in which:
            obs.append(Ob(f"formula/{c}/{fadd}", two(fadd), anchor=anchor(fadd), custom=curve_custom(with_operand(co, binary_models(co, add_law)))))
            if co.form == "sw":
                obs.append(Ob(f"formula/{c}/{fadd}/opposite", two(fadd), anchor=anchor(fadd), custom=curve_custom([opposite_model(co)])))
            if co.embed is ext_e:   # complete addition: also for equal points, the identity and 2-torsion
                obs.append(Ob(f"formula/{c}/{fadd}/equal", two(fadd), anchor=anchor(fadd), custom=curve_custom([equal_model(co)])))
                for nm, x, y in (("identity", 0, 1), ("order2", 0, -1)):
                    obs.append(Ob(f"formula/{c}/{fadd}/{nm}-right", two(fadd), anchor=anchor(fadd), custom=curve_custom([fixed_model(co, (x, y), False)])))
                    obs.append(Ob(f"formula/{c}/{fadd}/{nm}-left", two(fadd), anchor=anchor(fadd), custom=curve_custom([fixed_model(co, (x, y), True)])))
        if "dbl" in which:
            obs.append(Ob(f"formula/{c}/{fdbl}", one(fdbl), anchor=anchor(fdbl), custom=curve_custom(unary_models(co, lambda co, pr, p: dbl_law(co, pr, p)))))
            obs.append(Ob(f"formula/{c}/{fdbl}/identity", one(fdbl) + " vi_out(90, p.is_zero());", anchor=anchor(fdbl), custom=curve_custom([zero_model(co)])))
            if co.form == "sw":
                obs.append(Ob(f"formula/{c}/{fdbl}/order2", one(fdbl) + " vi_out(90, p.is_zero());", anchor=anchor(fdbl), custom=curve_custom([order2_model(co)])))
            if co.embed is ext_e:
                obs.append(Ob(f"formula/{c}/{fdbl}/order2", one(fdbl) + " vi_out(90, p.is_zero());", anchor=anchor(fdbl), custom=curve_custom([fixed_double_model(co, (0, -1), (0, 1))])))
        if "madd" in which and fmadd:
            obs.append(Ob(f"formula/{c}/{fmadd}", two(fmadd), anchor=anchor(fmadd), custom=curve_custom(with_operand(co, binary_models(co, add_law, z2=1)))))
            if co.form == "sw":
                obs.append(Ob(f"formula/{c}/{fmadd}/opposite", two(fmadd), anchor=anchor(fmadd), custom=curve_custom([opposite_model(co, z2=1)])))
    return obs


def with_operand(co, ms):
    for m in ms:
        def verify(w, get, e, v=m.verify, inputs=m.inputs):
            v(w, get, e)
            if e is None: return
            inp = inputs(w)
            for n in co.names:
                if not get(50 + IDX[n]).eq(inp[f"x{10 + IDX[n]}"]): raise Bad(f"the second operand's {n} is modified")
        m.verify = verify
    return ms


def opposite_model(co, z2=None):
    """P + (-P) = O (SW): Z3 = 0 with the other coordinates not all zero"""
    def pts(w):
        P = Pt(w, co, 1)
        return P, Pt(w, co, 2, neg_law(co, P.xy), z=z2), params(w, co, P.xy)
    def inputs(w):
        P, Q, pr = pts(w)
        return {**P.inputs(0), **Q.inputs(10), **pin_(pr)}
    def verify(w, get, e):
        v = read(co, get)
        if not v[2].is_zero(): raise Bad(f"P + (-P) is not the point at infinity: Z = {show(v[2])[:160]}")
        if v[0].is_zero() and v[1].is_zero(): raise Bad("P + (-P) collapses to (0,0,0)")
    return Model(inputs, verify, lambda w: [w["Z1"], w["y1"]] + ([w["Z2"]] if z2 is None else []), explore=1)


def equal_model(co):
    def pts(w):
        P = Pt(w, co, 1); return P, Pt(w, co, 2, P.xy), params(w, co, P.xy)
    def inputs(w):
        P, Q, pr = pts(w); return {**P.inputs(0), **Q.inputs(10), **pin_(pr)}
    def verify(w, get, e):
        P, Q, pr = pts(w); check_point(co, read(co, get), dbl_law(co, pr, P.xy))
    return Model(inputs, verify, lambda w: [w["Z1"], w["Z2"]], explore=1)


def fixed_model(co, xy, left):
    def pts(w):
        P = Pt(w, co, 1); F = Pt(w, co, 2, (w.c(xy[0]), w.c(xy[1])))
        return P, F, params(w, co, P.xy)
    def inputs(w):
        P, F, pr = pts(w)
        return {**(F if left else P).inputs(0), **(P if left else F).inputs(10), **pin_(pr)}
    def verify(w, get, e):
        P, F, pr = pts(w)
        check_point(co, read(co, get), te_add(P.xy, F.xy, pr["a"], pr["d"]))
    return Model(inputs, verify, lambda w: [w["Z1"], w["Z2"]], explore=1)


def fixed_double_model(co, xy, want):
    def inputs(w): return {**Pt(w, co, 1, (w.c(xy[0]), w.c(xy[1]))).inputs(0), **pin_(params(w, co))}
    def verify(w, get, e): check_point(co, read(co, get), (w.c(want[0]), w.c(want[1])))
    return Model(inputs, verify, lambda w: [w["Z1"]], explore=1)


def order2_model(co):
    def inputs(w):
        P = Pt(w, co, 1, (w["x1"], w.c(0)))
        return {**P.inputs(0), **pin_(params(w, co, P.xy))}
    def verify(w, get, e):
        v = read(co, get)
        if not v[2].is_zero(): raise Bad("doubling a point of order two does not give the point at infinity")
        if v[0].is_zero() and v[1].is_zero(): raise Bad("doubling a point of order two collapses to (0,0,0)")
    # 3x^2 + a = 0 together with y = 0 would make the curve singular
    return Model(inputs, verify, lambda w: [w["Z1"], w["x1"] * w["x1"] * 3 + params(w, co)["a"]] + ([w["x1"]] if co.a == 0 else []), explore=1)


def zero_model(co):
    """any representation of the identity stays the identity when doubled"""
    def inputs(w):
        k = kind(co); z = w["Z1"]
        if k == "sw":
            # points at infinity: (t^2 : t^3 : 0) in Jacobian, (0 : y : 0) in projective coordinates, and the all-zero default
            t = w["y1"]
            X = t * t if co.embed is jac_e else w.c(0)
            Y = t * t * t if co.embed is jac_e else t
            v = [X, Y, w.c(0)]
        elif k == "ext": v = [w.c(0), z, z, w.c(0)]
        else: v = [z, w.c(0), w.c(0)]
        return {**{f"x{IDX[n]}": x for n, x in zip(co.names, v)}, **pin_(params(w, co))}
    def verify(w, get, e):
        if get(90).eq(1) is False: raise Bad("doubling the identity does not give the identity")
    return Model(inputs, verify, lambda w: [], explore=1)


def run_curve(c, obs, prelude, stub=False, prefix=""):
    tus = make_tus(obs, prelude, stub=stub, nsplit=8, prefix=prefix, flags=["-UNDEBUG"])
    mods = c.compile_all(tus)
    HOOKS = {"vd_sqrt": lambda I, st, args, loc, name: absint.leaf(absint.term("sqrt", None, absint.as_term(None, args[0])))}
    for o in obs:
        mod = mods[o.tuname]
        try: I, outs = analyse(mod, o.fn, hooks=HOOKS)
        except AnalysisError as e: raise Broken(f"obligation {o.key}: {e}")
        c.absorb(I)
        o.I, o.outs, o.mod = I, outs, mod
    def work(o):
        sub = Check.__new__(Check); sub.obl = []; sub.samples = []; sub.extra = {}
        try: o.custom(sub, o, o.mod, o.I, o.outs)
        except Broken as b: return str(b), [], [], {}
        except AnalysisError as b: return f"obligation {o.key}: {b}", [], [], {}
        return None, sub.obl, sub.samples, sub.extra
    broken = None
    for err, obl, sm, ex in pmap(work, obs):
        broken = broken or err
        c.obl += obl
        c.samples = (c.samples + sm)[:12]
        for k, v in ex.items():
            c.extra[k] = c.extra[k] + v if k in c.extra else v
    if broken: raise Broken(broken)
