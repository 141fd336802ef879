"""C07-C08: scalar multiplication and multi-exponentiation.  Group elements are formal integer combinations of symbolic base
points (the group law itself is C01-C04); scalars are enumerated, so the code's control flow over their bits is decided
exactly, and the resulting coefficients are compared with the scalars."""
from core import *
from harn import *
import absint, vf
from fields import nlit
from curves import run_curve
SM = "nil/crypto3/algebra/curves/detail/scalar_mul.hpp"
FLD = ("nil/crypto3/algebra/fields/bls12/scalar_field.hpp", "bls12_scalar_field<381>")
R381 = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
PRE7 = f'''
#include <grp.hpp>
#include <{FLD[0]}>
#include <nil/crypto3/algebra/type_traits.hpp>
using namespace nil::crypto3::algebra;
typedef fields::{FLD[1]} FLD;
typedef FLD::value_type S;
namespace ag {{
#include <{SM}>
}}
'''
PRE7 = f'''
#include <grp.hpp>
#include <{FLD[0]}>
#include <{SM}>
using namespace nil::crypto3::algebra;
typedef fields::{FLD[1]} FLD;
typedef FLD::value_type S;
using namespace boost::multiprecision;
using nil::crypto3::algebra::curves::detail::operator*;
using nil::crypto3::algebra::curves::detail::operator*=;
using nil::crypto3::algebra::curves::detail::scalar_mul;
'''
SCAL = list(range(0, 40)) + [63, 64, 65, 127, 128, 255, 256, 257, 1023, 1025, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1]
BIG = [1 << 64, (1 << 64) + 1, (1 << 65) - 1, 3 << 100, (1 << 128) - 1, 1 << 128, (1 << 192) + (1 << 64) + 1, 1 << 254, (1 << 254) + 1, int("10" * 127, 2), int("1100" * 63, 2), R381 - 1, R381 - 2, (R381 - 1) // 2]


def chunks(l, n):
    for i in range(0, len(l), n): yield i // n, l[i:i + n]


def obs7(tier):
    obs = []
    for mx in ("true", "false"):
        T = f"ag::E<{mx}>"; cls = "mixed" if mx == "true" else "plain"
        def P(key, ss, expr, anc, pre=""):
            for j, l in chunks(ss, 6):
                body = f"{T} P = ag::in<{mx}>(0); const {T} &cP = P; {pre}" + " ".join("{ %s }" % (expr.replace("$K", str(i)).replace("$S", nlit(s)).replace("$U", f"{s}ul") ) for i, s in enumerate(l))
                obs.append(Ob(f"{key}/{cls}/{j}", body, lambda v, l=l: {i: v[0] * s for i, s in enumerate(l)}, anchor=f"{anc}@{SM}", tu=f"sm-{cls}-{key}", strata=NORM))
        P("scalar_mul", SCAL + BIG, "ag::out($K, scalar_mul(cP, $S));", "scalar_mul")
        P("point*integer", SCAL + BIG, "ag::out($K, cP * $S);", "operator*")
        P("integer*point", SCAL + BIG, "ag::out($K, $S * cP);", "operator*")
        P("point*element", SCAL + BIG, "S s($S); ag::out($K, cP * s);", "operator*")
        P("element*point", SCAL + BIG, "S s($S); ag::out($K, s * cP);", "operator*")
        P("point*residue", SCAL + BIG, "S s($S); ag::out($K, cP * s.data);", "operator*")
        P("point*size_t", SCAL, "std::size_t s = $U; ag::out($K, cP * s);", "operator*")
        P("size_t*point", SCAL, "std::size_t s = $U; ag::out($K, s * cP);", "operator*")
        for j, l in chunks(SCAL + BIG, 6):      # in place; the reference returned is the point itself
            body = f"{T} P = ag::in<{mx}>(0); " + " ".join("{ %s Q = P; S s(%s); auto &r = (Q *= s); ag::out(%d, Q); vi_out(%d, &r == &Q); }" % (T, nlit(s), 2 * i, 2 * i + 1) for i, s in enumerate(l))
            obs.append(Ob(f"point*=element/{cls}/{j}", body, lambda v, l=l: {**{2 * i: v[0] * s for i, s in enumerate(l)}, **{2 * i + 1: True for i in range(len(l))}}, anchor=f"operator *=@{SM}", tu=f"sm-{cls}-inplace", strata=NORM))
    return obs


def h_log2(I, st, a, loc, name):
    import math
    from fractions import Fraction
    v = a[0].v if a[0].leaf else None
    if isinstance(v, absint.Term) and v.op == "c": v = v.args[0]
    if isinstance(v, absint.Term) or v is None: raise AnalysisError("logarithm of a symbolic value")
    return absint.leaf(Fraction(math.log2(v))) if v > 0 else absint.UNDEF


NORM = [("generic", None), ("normalised", lambda e: {1: e.c(1)})]


def run(c, obs, pre, flags=("-UNDEBUG",), tuflags=None, prefix="g"):
    mods = c.compile_all(make_tus(obs, pre, stub=True, flags=list(flags), tuflags=tuflags, prefix=prefix))
    hk = dict(vf.HOOKS); hk['log2'] = h_log2; hk['_ZNSt12domain_errorC1EPKc'] = absint.h_nop
    def work(o):
        mod = mods[o.tuname]
        sub = Check.__new__(Check); sub.obl = []; sub.samples = []; sub.extra = {}; sub.fns = set(); sub.stats = {}
        absint.FUEL[0] = 3000000
        try: I, outs = analyse(mod, o.fn, hooks={**hk, **getattr(o, "hooks", {})})
        except absint.OutOfFuel:
            sub.ob(o.key, False, "does not terminate", loc_of(o, mod)); return None, sub.obl, []
        except AnalysisError as e:
            if "loop bound exceeded" in str(e): sub.ob(o.key, False, "does not terminate", loc_of(o, mod)); return None, sub.obl, []
            if "undefined value" in str(e): sub.ob(o.key, False, str(e), loc_of(o, mod)); return None, sub.obl, []
            return f"obligation {o.key}: {e}", [], []
        try: one(sub, o, mod, I, outs, None, (), {})
        except AnalysisError as e: return f"obligation {o.key}: {e}", [], []
        return None, sub.obl, (sorted(I.stats["functions"]), I.stats["blocks"], I.stats["insts"])
    broken = None
    for err, obl, fns in pmap(work, obs):
        broken = broken or err
        c.obl += obl
        if fns: c.analysed |= set(fns[0]); c.blocks += fns[1]; c.insts += fns[2]
    if broken: raise Broken(broken)



# ---------------------------------------------------------------- C08: multi-exponentiation, windows, wNAF
MX = "nil/crypto3/algebra/multiexp/multiexp.hpp"
PO = "nil/crypto3/algebra/multiexp/policies.hpp"
WN = "nil/crypto3/algebra/wnaf.hpp"
PRE8 = f"""
#include <grp.hpp>
#include <{FLD[0]}>
#include <{SM}>
namespace ag {{ using nil::crypto3::algebra::curves::detail::operator*; using nil::crypto3::algebra::curves::detail::operator*=; }}
#include <nil/crypto3/algebra/curves/params.hpp>
typedef ag::G<false> GT; typedef ag::E<false> T;
namespace nil {{ namespace crypto3 {{ namespace algebra {{ namespace curves {{
template<> struct wnaf_params<GT> {{ constexpr static const std::array<std::size_t, 4> wnaf_window_table = {{{{2, 5, 9, 40}}}}; }};
template<> struct multiexp_params<GT> {{ constexpr static const std::array<std::size_t, 6> fixed_base_exp_window_table = {{{{1, 5, 0, 11, 0, 32}}}}; }};
}} }} }} }}
#include <{MX}>
#include <nil/crypto3/algebra/multiexp/inner_product.hpp>
using namespace nil::crypto3::algebra;
typedef fields::{FLD[1]} FLD;
typedef FLD::value_type S;
using namespace boost::multiprecision;
"""
VECS = [(), (0,), (1,), (5,), (R381 - 1,), (0, 0), (0, 1), (1, 1), (3, 5), (5, 3), (7, 7), (1, 1 << 40), (R381 - 1, 2), (0, 9, 0), (1, 2, 3), (3, 3, 3), (100, 1, 1 << 30), (R381 - 1, R381 - 2, 1),
        (0, 0, 0, 0), (1, 0, 1, 6), (9, 8, 7, 6), (1 << 20, (1 << 20) - 1, 1 << 19, 12345), (1, 2, 3, 4, 5), (255, 256, 257, 1, 0), (6, 6, 1, 6, 6, 1), ((1 << 64) - 1, 1 << 64, (1 << 64) + 1, 77, 0, 3, 1 << 100), (1, 2, 3, 4, 5, 6, 7, 8), (0, 0, 0, 1, 0, 0, 0, 0, 12),
        tuple((i * 2654435761) % 257 for i in range(13)), tuple((i * 40503 + 7) % 65536 for i in range(16)), tuple(R381 // (i + 2) for i in range(5)), tuple((1 << i) - 1 for i in range(17)), tuple((i * i * 7 + 3) % 61 for i in range(33))]


def obs8():
    obs = []
    def lin(l): return lambda v: {0: sum((v[2 * i] * s for i, s in enumerate(l)), v[0] * 0)}
    def arr(l): return f"std::vector<T> b; std::vector<S> e; " + " ".join(f"b.push_back(ag::in<false>({i})); e.push_back(S({nlit(s)}));" for i, s in enumerate(l))
    for pol in ("multiexp_method_naive_plain", "multiexp_method_BDLO12", "multiexp_method_bos_coster"):
        for q, l in enumerate(VECS):
            obs.append(Ob(f"{pol}/{q}", arr(l) + f"ag::out(0, policies::{pol}::process(b.begin(), b.end(), e.begin(), e.end()));", lin(l), anchor=f"process@{PO}", tu=f"me-{pol}-{q // 5}"))
            for ch in (1, 2, 3, 4):
                if pol != "multiexp_method_naive_plain" and ch not in (1, 3): continue
                obs.append(Ob(f"multiexp/{pol}/{q}/chunks{ch}", arr(l) + f"ag::out(0, multiexp<policies::{pol}>(b.begin(), b.end(), e.begin(), e.end(), {ch}));", lin(l), anchor=f"multiexp@{MX}", tu=f"mc-{pol}-{q // 5}-{ch}"))
            obs.append(Ob(f"mixed/{pol}/{q}", arr(l) + f"ag::out(0, multiexp_with_mixed_addition<policies::{pol}>(b.begin(), b.end(), e.begin(), e.end(), 2));", lin(l), anchor=f"multiexp_with_mixed_addition@{MX}", tu=f"mm-{pol}-{q // 5}"))
    WS = list(range(0, 36)) + [63, 64, 127, 1023, (1 << 40) + 5, (1 << 64) - 1, R381 - 1]
    for w in (1, 2, 3, 4, 5):
        for j, l in chunks(WS, 8):
            obs.append(Ob(f"fixed_window_wnaf_exp/w{w}/{j}", "T P = ag::in<false>(0); " + " ".join(f"ag::out({i}, fixed_window_wnaf_exp({w}, P, number<backends::cpp_int_modular_backend<256>>({nlit(s)})));" for i, s in enumerate(l)), lambda v, l=l: {i: v[0] * s for i, s in enumerate(l)}, anchor=f"fixed_window_wnaf_exp@{WN}", tu=f"wn-{w}"))
    for nb in (0, 1, 2, 3, 4, 5, 8, 9, 39, 40, 41, 300):
        l = [0, 1, 2, 3, 13, 29, (1 << 40) + 77]
        obs.append(Ob(f"opt_window_wnaf_exp/{nb}", "T P = ag::in<false>(0); " + " ".join(f"ag::out({i}, opt_window_wnaf_exp(P, number<backends::cpp_int_modular_backend<256>>({nlit(s)}), {nb}));" for i, s in enumerate(l)), lambda v, l=l: {i: v[0] * s for i, s in enumerate(l)}, anchor=f"opt_window_wnaf_exp@{WN}", tu="wo"))
    tab = [1, 5, 0, 11, 0, 32]
    for n in (0, 1, 2, 4, 5, 6, 10, 11, 12, 31, 32, 33, 1000):
        want = max([i + 1 for i, t in enumerate(tab) if t and n >= t], default=1)
        obs.append(Ob(f"get_exp_window_size/{n}", f"vi_out(0, get_exp_window_size<GT>({n}));", lambda v, want=want: {0: want}, anchor=f"get_exp_window_size@{MX}", tu="ws"))
    for bits, w in ((1, 1), (4, 1), (4, 2), (5, 2), (6, 4), (7, 3), (8, 3), (9, 8), (3, 5)):
        top = (1 << bits) - 1; l = sorted({0, 1, 2 % (top + 1), 3 % (top + 1), top, top // 2, top - 1 if top else 0, (top * 2) // 3})
        hd = f"auto t = get_window_table<GT>({bits}, {w}, ag::in<false>(0)); "
        obs.append(Ob(f"windowed_exp/{bits}/{w}", hd + " ".join(f"ag::out({i}, windowed_exp<GT, FLD>({bits}, {w}, t, S({nlit(s)})));" for i, s in enumerate(l)), lambda v, l=l: {i: v[0] * s for i, s in enumerate(l)}, anchor=f"windowed_exp@{MX}", tu=f"we{bits}-{w}"))
        ev = "std::vector<S> e; " + " ".join(f"e.push_back(S({nlit(s)}));" for s in l)
        obs.append(Ob(f"batch_exp/{bits}/{w}", hd + ev + f"auto r = batch_exp<GT, FLD>({bits}, {w}, t, e); vi_out(100, r.size()); for (std::size_t i = 0; i < r.size(); ++i) ag::out(i, r[i]);", lambda v, l=l: {100: len(l), **{i: v[0] * s for i, s in enumerate(l)}}, anchor=f"batch_exp@{MX}", tu=f"we{bits}-{w}"))
        l2 = [s for s in l if 3 * s <= top]
        ev = "std::vector<S> e; " + " ".join(f"e.push_back(S({nlit(s)}));" for s in l2)
        obs.append(Ob(f"batch_exp_with_coeff/{bits}/{w}", hd + ev + f"auto r = batch_exp_with_coeff<GT, FLD>({bits}, {w}, t, S(3u), e); vi_out(100, r.size()); for (std::size_t i = 0; i < r.size(); ++i) ag::out(i, r[i]);", lambda v, l=l2: {100: len(l), **{i: v[0] * 3 * s for i, s in enumerate(l)}}, anchor=f"batch_exp_with_coeff@{MX}", tu=f"we{bits}-{w}"))
    for n in (0, 1, 3):
        obs.append(Ob(f"inner_product/{n}", "std::vector<ag::F1> a, b; " + " ".join(f"a.push_back(ag::F1::mk(vd_in({i}))); b.push_back(ag::F1::mk(vd_in({i + 50})));" for i in range(n)) + "vd_out(0, nil::crypto3::algebra::inner_product(a.begin(), a.end(), b.begin(), b.end()).data);", lambda v, n=n: {0: sum((v[i] * v[i + 50] for i in range(n)), v[0] * 0)}, anchor="inner_product@nil/crypto3/algebra/multiexp/inner_product.hpp", tu="ip"))
    for pat in ("", "z", "p", "zp", "pzp", "zz", "ppzz"):
        hd = "std::vector<T> v; " + " ".join(f"v.push_back(ag::in<false>({i}));" if ch == "p" else "v.push_back(T::zero());" for i, ch in enumerate(pat))
        obs.append(Ob(f"batch_to_special/{pat or 'empty'}", hd + "batch_to_special<GT>(v); vi_out(100, v.size()); for (std::size_t i = 0; i < v.size(); ++i) { ag::out(2 * i, v[i]); vi_out(2 * i + 1, v[i].Z.is_one()); }", lambda v, pat=pat: {100: len(pat), **{2 * i: v[2 * i] if ch == "p" else 0 * v[0] for i, ch in enumerate(pat)}, **{2 * i + 1: True for i in range(len(pat))}}, anchor=f"batch_to_special@{MX}", tu="bs"))
    return obs


def C08(c): run(c, obs8(), PRE8)


def C07(c):
    import wiring
    run(c, obs7(c.tier if hasattr(c, "tier") else "quick"), PRE7)
    wiring.from_integer(c)


PROPS = {"C07": C07, "C08": C08}
