"""W01: the classes a user names (curves, their groups, extension fields) hold the parts that belong together.
Type identities and constants of the current headers, read from the IR of tiny programs naming them, and decided against one table."""
from core import *
from harn import *
from absint import AnalysisError
import absint, vf, consts
from consts import harvest, Fp1, Ext, pack, sw_mul, te_mul, line_of
NC_ = "nil/crypto3/algebra/curves/"
JA, PR, J, JM, PM, AF, EX, IN = "jacobian_with_a4_0", "projective", "jacobian", "jacobian_with_a4_minus_3", "projective_with_a4_minus_3", "affine", "extended_with_a_minus_1", "inverted"
SW, TE, MO = "short_weierstrass", "twisted_edwards", "montgomery"
CURVES = []       # key, header, class, base field, scalar field, {g1: [(form, coordinates)], first = default}, g2 tower, gt field, params key
def _w():
    def c(n, v, g1, g2=None, ext=None, gt=None, hdr=None, fld=None, alias=None, pk=None):
        f = fld or n; a = f"<{v}>" if v else ""; key = f"{n}-{v}" if v else n
        CURVES.append((key, NC_ + (hdr or n) + ".hpp", n + a, f"fields::{f}_base_field{a}", f"fields::{f}_scalar_field{a}", g1, g2, ext, gt, alias, pk or (f"{f}-{v}" if v else f)))
    c("alt_bn128", 254, [(SW, JA)], [(SW, JA)], "fp2", "fp12_2over3over2", alias="alt_bn128_254")
    for v in (381, 377): c("bls12", v, [(SW, JA), (SW, AF)], [(SW, JA), (SW, AF)], "fp2", "fp12_2over3over2", alias=f"bls12_{v}")
    c("mnt4", 298, [(SW, PR)], [(SW, PR)], "fp2", "fp4", alias="mnt4_298")
    c("mnt6", 298, [(SW, PR)], [(SW, PR)], "fp3", "fp6_2over3", alias="mnt6_298")
    c("edwards", 183, [(TE, IN)], [(TE, IN)], "fp3", "fp6_2over3", alias="edwards_183")
    for n in ("babyjubjub", "jubjub"): c(n, None, [(TE, AF), (MO, AF)])
    c("ed25519", None, [(TE, EX)], fld="curve25519", pk="curve25519")
    c("curve25519", None, [(MO, EX)])
    for n in ("pallas", "vesta"): c(n, None, [(SW, JA), (SW, AF)])
    for v in (160, 192, 224, 256): c("secp_k1", v, [(SW, JA)], alias=f"secp{v}k1")
    for v in (160, 192, 224, 256, 384, 521): c("secp_r1", v, [(SW, PR), (SW, JM), (SW, PM), (SW, J)], alias=f"secp{v}r1")
_w()
NEEDS_A = {JA: 0, JM: -3, PM: -3, EX: -1}
PRE = r'''#include <kio.hpp>
#include <%s>
using namespace nil::crypto3::algebra;
using namespace nil::crypto3::algebra::curves;
namespace fields = nil::crypto3::algebra::fields;
template<class A, class B> constexpr bool same() { return std::is_same<A, B>::value; }
template<class V, class = void> struct hz : std::false_type {};
template<class V> struct hz<V, std::void_t<decltype(std::declval<V>().Z)>> : std::true_type {};
template<class V, class = void> struct ht : std::false_type {};
template<class V> struct ht<V, std::void_t<decltype(std::declval<V>().T)>> : std::true_type {};
template<class V> void point(int k, const V &v) {
    kio::at(k, v.X); kio::at(k + 8, v.Y);
    if constexpr (hz<V>::value) kio::at(k + 16, v.Z);
    if constexpr (ht<V>::value) kio::at(k + 24, v.T);
}
'''


def affine(K, co, pt):
    """the affine pair of a representation, or None when it has none"""
    Xc, Yc, Zc, Tc = pt; inv = K.inv
    if co in (JA, J, JM): return (K.mul(Xc, K.pw(inv(Zc), 2)), K.mul(Yc, K.pw(inv(Zc), 3))) if Zc != K.zero else None
    if co in (PR, PM, EX): return (K.mul(Xc, inv(Zc)), K.mul(Yc, inv(Zc))) if Zc != K.zero else None
    if co == IN: return (K.mul(Zc, inv(Xc)), K.mul(Zc, inv(Yc))) if K.zero not in (Xc, Yc) else None
    return Xc, Yc


INTS = [0, 1, 2, 3, 11]
def from_integer(c):
    """constructing and assigning a group element from an integer (part of C07)"""
    P = consts.fields(c); X = consts.exts(c)
    tus = []; jobs = []
    for key, h, T, bf, sf, g1, g2, ext, gt, alias, pk in CURVES:
        txt = PRE % h + f"\ntypedef {sf}::integral_type Z;\n"; l = []
        for g, gl in (("g1", g1), ("g2", g2 or [])):
            for form, co in gl:
                if key == "curve25519" or (key, g) == ("edwards-183", "g2") or form == MO or co == PM or (co, g) == (AF, "g2"): continue
                V = f"{T}::{g}_type<coordinates::{co}, forms::{form}>::value_type"
                for how in ("constructed", "assigned"):
                    if how == "constructed" and co == J: continue
                    for k in INTS + ["r-1"]:
                        z = "Z(%su)" % k if k != "r-1" else f"Z({sf}::modulus - 1u)"
                        l.append((f"from-integer/{key}/{g}/{form}/{co}/{how}/{k}", V, form, co, g, k))
                        txt += f'extern "C" void n_{len(l) - 1}() {{ const Z z = {z}; ' + (f"{V} v(z);" if how == "constructed" else f"{V} v = {V}::one(); v.double_inplace(); v = z;") + f" point(0, v); auto o = {V}::one(); point(32, o); }}\n"
        nm = "n_" + re.sub(r"\W", "_", key); tus.append(TU(nm, txt, ("-UNDEBUG",), True)); jobs.append((nm, key, h, pk, ext, l, P[pk + "/base"]["modulus"][0], P[pk + "/scalar"]["modulus"][0]))
    mods = c.compile_all(tus)
    def work(a):
        job, j = a; nm, key, h, pk, ext, l, p, r = job; n, V, form, co, g, k = l[j]
        absint.FUEL[0] = 6000000
        try: I, outs = analyse(mods[nm], f"n_{j}", hooks=vf.HOOKS)
        except absint.OutOfFuel: return n, "does not terminate", (), 0, 0
        except AnalysisError as e: return n, Broken(f"{n}: {e}"), (), 0, 0
        d = {s: vf.const_of(v) for s, v in outs.items()}
        K = Fp1(p) if g == "g1" else Ext(p, int(ext[2]), X[f"{pk}/{ext}"]["non_residue"][0] % p)
        def get(b):
            t = [pack(K, [d.get(b + 8 * i + q) for q in range(K.n)]) if b + 8 * i in d else None for i in range(4)]
            return None if any(v is None for v in t[:2]) else t
        if any(v is None for v in d.values()): return n, Broken(f"{n} is not a constant"), (), 0, 0
        v, o = get(0), get(32)
        if v is None or o is None: return n, Broken(f"{n}: no coordinates"), (), 0, 0
        G = affine(K, co, o); k_ = r - 1 if k == "r-1" else k
        return n, (sw_bad if form == SW else te_bad)(K, pk, key, g, co, v, G, k, k_), sorted(I.stats["functions"]), I.stats["blocks"], I.stats["insts"]
    C = harvest(c, consts.CUR, consts.CN, consts.NS_C)
    def sw_bad(K, pk, key, g, co, v, G, k, k_):
        if k == 0: return None if (co == AF and (v[0], v[1]) in ((K.zero, K.one), (K.zero, K.zero))) or (co != AF and v[2] == K.zero) else f"zero does not give the point at infinity: {v}"
        if co != AF and v[2] == K.zero: return "the point at infinity"
        want = (G[0], K.sub(K.zero, G[1])) if k == "r-1" else sw_mul(K, pack(K, (C[f"{pk}/{g}"]["a"] + [0] * K.n)[:K.n]), G, k_)
        got = affine(K, co, v); return None if got == want else f"{got} instead of {want}"
    def te_bad(K, pk, key, g, co, v, G, k, k_):
        if key == "edwards-183": a, dd = K.one, ED_D % K.p
        else: cd = C[f"{pk}/te" if f"{pk}/te" in C else f"{pk}/g1/te"]; a, dd = cd["a"][0] % K.p, cd["d"][0] % K.p
        if k == 0: return None if {EX: v[0] == K.zero and v[1] == v[2], IN: v[2] == K.zero, AF: (v[0], v[1]) in ((K.zero, K.one), (K.zero, K.zero))}[co] else f"zero does not give the neutral element: {v}"
        got = affine(K, co, v); want = te_mul(K, a, dd, G, k_)
        return None if got == want else f"{got} instead of {want}"
    todo = [(job, j) for job in jobs for j in range(len(job[5]))]
    for (job, j), (n, bad, fns, b, i) in zip(todo, pmap(work, todo)):
        if isinstance(bad, Broken): raise bad
        c.analysed |= set(fns); c.blocks += b; c.insts += i
        c.ob(n, bad is None, bad or "holds", None if bad is None else line_of(NC_ + "detail/scalar_mul.hpp", "scalar_mul"))


def W01(c):
    P = consts.fields(c); X = consts.exts(c); C = harvest(c, consts.CUR, consts.CN, consts.NS_C)
    tus = []; jobs = []
    for key, h, T, bf, sf, g1, g2, ext, gt, alias, pk in CURVES:
        txt = PRE % h + "\n"
        F2 = f"fields::{ext}<{bf}>" if ext else None
        exprs = [("base_field_type", f"same<{T}::base_field_type, {bf}>()", "base_field_type is the curve's base field"), ("scalar_field_type", f"same<{T}::scalar_field_type, {sf}>()", "scalar_field_type is the field of the group order")]
        if gt: exprs.append(("gt_type", f"same<{T}::gt_type, fields::{gt}<{bf}>>()", "gt_type is the extension of the embedding degree over the base field"))
        if alias: exprs.append(("alias", f"same<{alias}, {T}>()", f"{alias} names {T}"))
        pol = "detail::" + (T.replace("<", "_types<") if "<" in T else ("curve25519" if T == "ed25519" else T) + "_types")
        exprs += [("policy/base_field_type", f"same<{pol}::base_field_type, {bf}>()", "the policy names the same base field"), ("policy/scalar_field_type", f"same<{pol}::scalar_field_type, {sf}>()", "the policy names the same scalar field"),
                  ("policy/g1_field_type", f"same<{pol}::g1_field_type, {bf}>()", "the policy's G1 field is the base field"), ("policy/integral_type", f"same<{pol}::integral_type, {bf}::integral_type>()", "the policy's integers are those of the base field")]
        if ext: exprs += [("policy/g2_field_type", f"same<{pol}::g2_field_type, {F2}>()", "the policy's G2 field is the extension G2 lives in"), ("policy/gt_field_type", f"same<{pol}::gt_field_type, fields::{gt}<{bf}>>()", "the policy's target field is gt_type")]
        points = []
        for g, l in (("g1", g1), ("g2", g2 or [])):
            for i, (form, co) in enumerate(l):
                G = f"{T}::{g}_type<coordinates::{co}, forms::{form}>"; V = G + "::value_type"; fld = bf if g == "g1" else F2
                n = f"{g}/{form}/{co}"; edg2 = key == "edwards-183" and g == "g2"; incomplete = key == "curve25519"
                if i == 0: exprs.append((f"{g}/default", f"same<{T}::{g}_type<>, {G}>()", f"{g}_type<> is the group in {co} coordinates, {form} form"))
                exprs += [(n + "/curve_type", f"same<{G}::curve_type, {T}>()" if not (key in ("ed25519", "curve25519")) else f"same<{G}::curve_type, {T}>()", "the group names its curve"), (n + "/field_type", f"same<{G}::field_type, {fld}>()", "the group's coordinates lie in the right field"),
                          (n + "/value_bits", f"{G}::value_bits == {fld}::value_bits + 1", "value_bits is one more than the field's"),
                          (n + "/group_type", f"same<{G}, detail::{ {'ed25519': 'curve25519'}.get(T, T.split('<')[0])}_{g}<{(T.split('<')[1][:-1] + ', ') if '<' in T else ''}forms::{form}, coordinates::{co}>>()", "the group is the curve's group of that form and coordinate system")]
                if incomplete: continue
                exprs.append((n + "/element/group_type", f"same<{V}::group_type, {G}>()", "an element names the group it is taken from"))
                if not edg2:
                    exprs += [(n + "/element/field_type", f"same<{V}::field_type, {fld}>()", "an element's coordinates lie in the group's field"), (n + "/element/form", f"same<{V}::form, forms::{form}>() && same<{V}::coordinates, coordinates::{co}>()", "an element names its form and coordinate system"),
                              (n + "/element/params", f"same<{V}, detail::curve_element<detail::{ {'ed25519': 'curve25519'}.get(T, T.split('<')[0])}_{g}_params<{(T.split('<')[1][:-1] + ', ') if '<' in T else ''}forms::{form}>, forms::{form}, coordinates::{co}>>()", "an element is that of the curve's parameters, form and coordinate system")]
                exprs.append((n + "/element/X", f"same<decltype({V}::X), {fld}::value_type>()", "coordinates are elements of the group's field"))
                points.append((n, V, g, form, co))
        txt += "extern \"C\" void w_types() {\n" + "".join(f"    vi_out({j}, {e});\n" for j, (_, e, _) in enumerate(exprs)) + "}\n"
        for j, (n, V, *_) in enumerate(points):
            txt += f"extern \"C\" void w_p{j}() {{ {{ auto v = {V}::one(); point(0, v); }} {{ auto v = {V}::zero(); point(32, v); }} {{ {V} v; point(64, v); }} }}\n"
        name = "w_" + re.sub(r"\W", "_", key)
        tus.append(TU(name, txt, ("-UNDEBUG",), True)); jobs.append((name, key, h, T, exprs, points, ext, pk))
    mods = c.compile_all(tus)
    for name, key, h, T, exprs, points, ext, pk in jobs:
        def val(fn):
            try: I, outs = analyse(mods[name], fn, hooks=vf.HOOKS)
            except AnalysisError as e: raise Broken(f"{key}: {e}")
            c.absorb(I)
            d = {s: vf.const_of(v) for s, v in outs.items()}
            if None in d.values(): raise Broken(f"{key}: {fn} is not a constant")
            return d
        d = val("w_types")
        for j, (n, e, msg) in enumerate(exprs):
            c.ob(f"{key}/{n}", d[j] == 1, msg + (f": {e} is false" if d[j] != 1 else ""), where(h, n, T) if d[j] != 1 else None)
        p, r = P[pk + "/base"]["modulus"][0], P[pk + "/scalar"]["modulus"][0]
        for j, (n, V, g, form, co) in enumerate(points):
            d = val(f"w_p{j}")
            K = Fp1(p) if g == "g1" else Ext(p, int(ext[2]), X[f"{pk}/{ext}"]["non_residue"][0] % p)
            def get(k): return pack(K, [d[k + i] for i in range(K.n)]) if k in d else None
            one, zero, dflt = ([get(b + 8 * i) for i in range(4)] for b in (0, 32, 64))
            fs = {SW: "sw", TE: "te", MO: "mo"}[form]
            ck = {"sw": f"{pk}/{g}", "te": f"{pk}/te" if f"{pk}/te" in C else f"{pk}/{g}/te", "mo": f"{pk}/mo"}[fs]
            cd = C[ck]; el = lambda nm: pack(K, (cd[nm] + [0] * K.n)[:K.n])
            want = (pack(K, cd["one_fill"][:K.n]), pack(K, cd["one_fill"][K.n:2 * K.n]))
            at = lambda m: where(h, n, T)
            def ob(nm, ok, msg): c.ob(f"{key}/{n}/{nm}", bool(ok), msg, at(nm) if not ok else None)
            Xc, Yc, Zc, Tc = one; aff = affine(K, co, one)
            if key == "edwards-183":
                # both groups are held in inverted coordinates; order and curve of the point itself are decided
                a = K.one if g == "g1" else pack(K, [0, 1, 0]); dd = pack(K, [ED_D % p] + [0] * (K.n - 1)); dd = K.mul(dd, a) if g == "g2" else dd
                on = aff is not None and K.add(K.mul(a, K.mul(aff[0], aff[0])), K.mul(aff[1], aff[1])) == K.add(K.one, K.mul(dd, K.pw(K.mul(aff[0], aff[1]), 2)))
                ob("one", on, "the generator satisfies the curve equation")
                if on: ob("order", te_mul(K, a, dd, aff, r) == (K.zero, K.one) and aff != (K.zero, K.one), f"the generator has order r = {r:#x}")
            else:
                ob("one", aff == want, f"one() is the generator of the parameters, {want}: {aff}")
                if co == EX: ob("one-T", Tc == K.mul(aff[0], aff[1]) and Zc == K.one if aff else False, "T of the generator is X Y / Z")
            if co in (JA, J, JM, PR, PM): ob("zero", zero[2] == K.zero, "zero() has Z = 0")
            elif co == EX: ob("zero", zero[0] == K.zero and zero[3] == K.zero and zero[1] == zero[2] != K.zero, "zero() is (0 : 1 : 1 : 0)")
            elif co == AF: ob("zero", (zero[0], zero[1]) in (((pack(K, cd["zero_fill"][:K.n]), pack(K, cd["zero_fill"][K.n:2 * K.n])),) if "zero_fill" in cd else ((K.zero, K.one), (K.zero, K.zero))), f"zero() is the pair that stands for the neutral element: {zero[:2]}")
            else: ob("zero", zero[2] == K.zero and K.zero in zero[:2], f"zero() has Z = 0: {zero}")
            ob("default", dflt == zero, "a default-constructed element is zero()")
            if co in NEEDS_A: ob("formulas", el("a") == K.emb(NEEDS_A[co]) if "a" in cd else False, f"the coordinate system assumes a = {NEEDS_A[co]}")
    ext_fields(c, P)
    tables(c)
    c.floor = 500


ED_D = 0x64536D55979879327CF1306BB5A6277D254EF9776CE70
def where(h, n, T):
    base = T.split("<")[0]
    what = n.split("/")[0]
    if what in ("g1", "g2"): what += "_type"
    if what in ("policy",):
        return line_of(NC_ + f"detail/{'curve25519' if base == 'ed25519' else base}/types.hpp", n.split("/")[1])
    if what in ("g1_type", "g2_type") and n.count("/") > 1:
        l = {"value_bits": "value_bits", "curve_type": "curve_type", "field_type": "field_type"}.get(n.split("/")[-1], "value_type")
        return line_of(NC_ + f"detail/{'curve25519' if base == 'ed25519' else base}/{what[:2]}.hpp", l)
    return line_of(h, what, "class " + base)


# ---------------------------------------------------------------- extension-field classes
TOWER = {"fp2": (2, None), "fp3": (3, None), "fp4": (4, "fp2"), "fp6_2over3": (6, "fp3"), "fp6_3over2": (6, "fp2"), "fp12_2over3over2": (12, "fp6_3over2")}
BASES = {"alt_bn128<254>": ["fp2", "fp6_3over2", "fp12_2over3over2"], "bn128<254>": ["fp2", "fp6_3over2", "fp12_2over3over2"], "bls12<381>": ["fp2", "fp6_3over2", "fp12_2over3over2"], "bls12<377>": ["fp2", "fp6_3over2", "fp12_2over3over2"],
         "mnt4<298>": ["fp2", "fp4"], "mnt6<298>": ["fp3", "fp6_2over3"], "edwards<183>": ["fp3", "fp6_2over3"]}


def ext_fields(c, P):
    tus = []; jobs = []
    for b, l in BASES.items():
        n, v = b[:-1].split("<"); B = f"fields::{n}_base_field<{v}>"
        ex = []
        for f in l:
            arity, low = TOWER[f]; T = f"fields::{f}<{B}>"; L = f"fields::{low}<{B}>" if low else B
            k = arity // (TOWER[low][0] if low else 1)
            ex += [(f, "modulus", f"{T}::modulus == {B}::modulus", "the characteristic is that of the base field"), (f, "modulus_bits", f"{T}::modulus_bits == {B}::modulus_bits", "modulus_bits is that of the base field"),
                   (f, "number_bits", f"{T}::number_bits == {B}::number_bits", "number_bits is that of the base field"), (f, "arity", f"{T}::arity == {arity}", f"the arity is {arity}"), (f, "value_bits", f"{T}::value_bits == {arity} * {B}::modulus_bits", "value_bits is arity times modulus_bits"),
                   (f, "integral_type", f"same<{T}::integral_type, {B}::integral_type>()", "integers are those of the base field"), (f, "modular_type", f"same<{T}::modular_type, {B}::modular_type>() && same<{T}::modular_backend, {B}::modular_backend>()", "residues are those of the base field"),
                   (f, "base_field_type", f"same<{T}::base_field_type, {B}>()", "the class names its base field"), (f, "underlying_field_type", f"same<{T}::underlying_field_type, {L}>()", f"the coordinates' field is {L}"),
                   (f, "value_type", f"same<{T}::value_type::field_type, {T}>()" if 0 else f"same<{T}::value_type, fields::detail::element_{f}<{T}::extension_policy>>()", "the element class is that of the field"),
                   (f, "extension_policy", f"same<{T}::extension_policy, fields::detail::{f}_extension_params<{B}>>()", "the parameters are those of the field over this base field"),
                   (f, "coordinates", f"sizeof({T}::value_type) == {k} * sizeof({L}::value_type) && same<std::decay_t<decltype(std::declval<{T}::value_type>().data[0])>, {L}::value_type>()", f"an element holds {k} elements of the level below")]
        txt = "#include <kio.hpp>\n" + "#include <vf_mp.hpp>\n#include <boost/functional/hash.hpp>\n" + f"#include <nil/crypto3/algebra/fields/{n}/base_field.hpp>\n" + "".join(f"#include <nil/crypto3/algebra/fields/{f}.hpp>\n" for f in l) + \
              "using namespace nil::crypto3::algebra;\ntemplate<class A, class B> constexpr bool same() { return std::is_same<A, B>::value; }\nextern \"C\" void w_f() {\n" + "".join(f"    vi_out({j}, (std::size_t)({e}));\n" for j, (_, _, e, _) in enumerate(ex)) + "}\n"
        nm = "wf_" + re.sub(r"\W", "_", b); tus.append(TU(nm, txt, ("-UNDEBUG",), True)); jobs.append((nm, b, ex))
    mods = c.compile_all(tus)
    for nm, b, ex in jobs:
        try: I, outs = analyse(mods[nm], "w_f", hooks=vf.HOOKS)
        except AnalysisError as e: raise Broken(f"{b}: {e}")
        c.absorb(I)
        for j, (f, what, e, msg) in enumerate(ex):
            v = vf.const_of(outs[j])
            if v is None: raise Broken(f"{b}/{f}/{what} is not a constant")
            c.ob(f"{b}/{f}/{what}", v == 1, f"{f} over {b}: {msg}", None if v == 1 else line_of(f"nil/crypto3/algebra/fields/{f}.hpp", what, "class " + f))


def tables(c):
    """window tables: entry i is the size from which window i+1 pays off; 0 marks a window never used.  The searches in multiexp.hpp and wnaf.hpp
    take the largest window whose entry is not above the size, which is the intended one only when the used entries increase"""
    for kind, name, f in (("multiexp", "fixed_base_exp_window_table", "mx"), ("wnaf", "wnaf_window_table", "wn")):
        items = [(f"{n}-{v}/{g}/{kind}", f"nil/crypto3/algebra/curves/params/{kind}/{n}.hpp", f"{kind}_params<{n}<{v}>::{g}_type<>>") for n, v in (("alt_bn128", 254), ("bls12", 381), ("bls12", 377), ("edwards", 183), ("mnt4", 298), ("mnt6", 298)) for g in ("g1", "g2")]
        H = harvest(c, items, [name], "nil::crypto3::algebra::curves")
        for k, h, t in items:
            d = H[k].get(name, []); u = [x for x in d if x]
            ok = bool(u) and all(x < y for x, y in zip(u, u[1:])) and (kind == "wnaf" or d[0] == 1)
            c.ob(k, ok, f"{name}: the entries of the windows in use increase" + (", and window 1 is used from one term on" if kind == "multiexp" else "") + f": {d}", None if ok else line_of(h, name, t.replace(f"{k.split('/')[0].split('-')[0]}<", f"typename {k.split('/')[0].split('-')[0]}<", 1)))


PROPS = {"W01": W01}
