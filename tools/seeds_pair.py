#!/usr/bin/env python3
"""Seeds for P01, P02, P03, P05, K05."""
import sys, os, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed, V
ONLY = sys.argv[1:]
FJ = "algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/"; FP = "algebra/pairing/forms/short_weierstrass/projective/"; PD = "algebra/pairing/detail/"
PRE = r'''// the library's pairing classes over a stand-in curve whose scalars are integers modulo 2^61 - 1 and whose target-group elements are their logarithm
#include <vf_mp.hpp>
#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sstream>
struct D {
    #ifndef DM
#define DM ((1ul << 61) - 1)
#endif
    unsigned long v; static constexpr unsigned long M = DM;
    constexpr D() : v(0) {}
    template<class T, typename std::enable_if<std::is_arithmetic<T>::value, int>::type = 0> constexpr D(T x) : v(x < 0 ? M - (unsigned long)(-x) : (unsigned long)x % M) {}
    friend constexpr D operator+(D a, D b) { return D((a.v + b.v) % M); }
    constexpr D operator-() const { return D((M - v) % M); }
    friend constexpr D operator-(D a, D b) { return a + (-b); }
    friend constexpr D operator*(D a, D b) { return D((unsigned long)((unsigned __int128)a.v * b.v % M)); }
    constexpr D pw(unsigned long e) const { D r(1), b = *this; for (; e; e >>= 1, b = b * b) if (e & 1) r = r * b; return r; }
    friend constexpr D operator/(D a, D b) { return a * b.pw(M - 2); }
    friend constexpr bool operator==(D a, D b) { return a.v == b.v; }
    friend constexpr bool operator!=(D a, D b) { return a.v != b.v; }
};
#define double D
#include <pmock.hpp>
#undef double
static std::map<int, D> IN; static bool REC = false;
extern "C" { D vd_in(int k) { if (!IN.count(k)) IN[k] = D(1234567ul * (k + 3)).pw(k + 5) + D(k); return IN[k]; } int vi_in(int) { return 0; } void vd_out(int, D) {} void vi_out(int, long) {} D vd_sqrt(D x) { return x; }
D vd_big(const void *p, std::size_t n) { D r; for (std::size_t i = n; i--;) r = r * D(256) + D(((const unsigned char *)p)[i]); return r; } }
#define REQ(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); return 1; } } while (0)
'''


def S(id, prop, edits, needs, breaks, h, curve, main, params=None, mod=None):
    if ONLY and id not in ONLY: return
    cpp = (f"#define DM {mod}ul     // a prime factor of (p^k - 1)/r\n" if mod else "") + PRE + f"#include <nil/crypto3/algebra/pairing/{h}.hpp>\nusing namespace nil::crypto3::algebra;\ntypedef curves::{curve} CV; typedef pairing::pairing_policy<CV> PP; typedef vp::Q2 Q; typedef CV::gt_type::value_type GT;\nint main() {{\n{main}\nreturn 0; }}\n"
    d = os.path.join(V, "seeded", id)
    if os.path.isdir(d + "/mp"): shutil.rmtree(d + "/mp")
    mkseed(id, prop, edits, needs, breaks, cpp, flags='-fconstexpr-steps=100000000 ' + (f'-DVP_LOOP={params[0]}u -DVP_NEG={params[1]} -I"$D/mp/pairparams" ' if params else '') + '-I"$D/mp"')
    m = d + "/mp"
    shutil.copytree(os.path.join(V, "stub"), m, dirs_exist_ok=True)
    shutil.copytree(os.path.join(V, "harness/pairmock"), m, dirs_exist_ok=True)
    if params: shutil.copytree(os.path.join(V, "harness/pairparams"), m + "/pairparams", dirs_exist_ok=True)
    for f in ("hio.hpp", "sf.hpp"): shutil.copy(os.path.join(V, "harness", f), m)


def expo(p, k, r, c=1): return c * ((p ** k - 1) // r) % ((1 << 61) - 1)


from importlib import import_module
P6 = 475922286169261325753349249653048451545124878552823515553267735739164647307408490559963137; R6 = 475922286169261325753349249653048451545124879242694725395555128576210262817955800483758081
P12 = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab; R12 = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
PE = 6210044120409721004947206240885978274523751269793792001; RE = 1552511030102430251236801561344621993261920897571225601
M61 = (1 << 61) - 1
FE = lambda p, k, r, c=1: f"IN[920] = D({p % M61}ul); D l(123456789ul); REQ(PP::final_exponentiation::process(GT::mk(l)).lg == l * D({expo(p, k, r, c)}ul)); REQ(PP::final_exponentiation::process(GT::one()).lg == D(0));"
S("P01-bls-hard-part", "P01", [(FJ + "final_exponentiation.hpp", "const typename gt_type::value_type K = E.unitary_inversed();        // elt^(-z+2)", "const typename gt_type::value_type K = B.unitary_inversed() * C.unitary_inversed() * N0(elt);        // elt^(-z+2)")] if 0 else
  [(FJ + "final_exponentiation.hpp", "const typename gt_type::value_type O = F * elt;                   // elt^(z^2-2z) * elt", "const typename gt_type::value_type O = F * N;                     // elt^(z^2-2z) * elt")],
  "the final exponentiation of BLS12 elements that are not killed by p^3 (in particular comparing two pairings)", "the q^3 term of the hard part carries the wrong power, so results are not in the order-r subgroup", "bls12", "bls12<381>", f"IN[920] = D({P12 % 4513}ul); for (unsigned long l = 1; l < 4513; ++l) REQ(PP::final_exponentiation::process(GT::mk(D(l))).lg == D(0));", mod=4513)
S("P01-mnt6-w0-side", "P01", [("algebra/pairing/mnt6/298/final_exponentiation.hpp", "const typename gt_type::value_type elt_q = elt.Frobenius_map(1);", "const typename gt_type::value_type elt_q = elt_inv.Frobenius_map(1);")],
  "a reduced MNT6 pairing", "the w1 part is taken of the inverse, so the exponent is not a multiple of (q^6-1)/r", "mnt6", "mnt6<298>", FE(P6, 6, R6))
S("P01-edwards-unreduced-cyclotomic", "P01", [("algebra/pairing/edwards/183/final_exponentiation.hpp", "elt_q.cyclotomic_exp(params_type::final_exponent_last_chunk_w1)", "elt_q.cyclotomic_exp(params_type::final_exponent_last_chunk_w1 + params_type::integral_type(1u))")] if 0 else [], "", "", "", "", "") if 0 else None
# lines
SW = r'''
    D x, y; for (unsigned long s = 5;; ++s) { x = D(s); D r = x * x * x + A * x + D(2003); y = r.pw((D::M + 1) / 4); if (y * y == r && y != D(0)) break; }
    D z(777); auto pt = %s;
    auto r = PP::precompute_g2::process(pt); D tx = x, ty = y; std::size_t j = 0, a = 0; (void)a;
    auto slope = [&](D ux, D uy, D vx, D vy) { return ux == vx ? (ux * ux * D(3) + A) / (uy * D(2)) : (uy - vy) / (ux - vx); };
    for (int i = %d; i >= 0; --i) for (int add = 0; add <= (%d >> i & 1); ++add) {
        D ux = add ? x : tx, uy = add ? y : ty, l = slope(tx, ty, ux, uy);
        %s
        D nx = l * l - tx - ux; ty = l * (tx - nx) - ty; tx = nx;
    }
'''
S("P02-bls-add-base-y", "P02", [(FJ + "ate_precompute_g2.hpp", "current.Y = E * (I - J) - (H * Y1);", "current.Y = E * (I - J) - (H * y2 * Z1);")],
  "a loop count with a set bit after the top one and at least one step after it", "the ordinate of the running point is wrong after an addition, so all later lines are wrong", "bls12", "bls12<381>",
  "D A(0);" + SW % ("vp::Pt<Q, 2, vp::Q2field>(Q::mk(x * z * z), Q::mk(y * z * z * z), Q::mk(z))", 2, 13, "auto c = r.coeffs[j++]; D W = c.ell_VW.data / D(131072); REQ(W != D(0)); REQ(-c.ell_VV.data == l * W); REQ(c.ell_0.data == (l * tx - ty) * W);"), params=(13, "false"))
S("P02-mnt-closing-sign", "P02", [(FP + "ate_precompute_g2.hpp", "g2_field_type_value minus_R_affine_Y = -R.Y * RZ3_inv;", "g2_field_type_value minus_R_affine_Y = R.Y * RZ3_inv;")],
  "a curve whose loop count is negative (MNT6)", "the closing line of a negative loop is taken through R itself and vanishes instead of being the vertical line", "mnt6", "mnt6<298>",
  "D A(1009);" + SW % ("vp::Pt<Q, 1, vp::Q2field>(Q::mk(x * z), Q::mk(y * z), Q::mk(z))", 1, 5, "if (!add) { auto c = r.dbl_coeffs[j++]; REQ(c.c_J.data == l * c.c_H.data); REQ(c.c_L.data - c.c_4C.data == (l * tx - ty) * c.c_H.data); } else { auto c = r.add_coeffs[a++]; REQ(c.c_L1.data == l * c.c_RZ.data); }")
  + "REQ(r.add_coeffs.size() == a + 1); REQ(r.add_coeffs[a].c_RZ.data == D(0)); REQ(r.add_coeffs[a].c_L1.data != D(0));", params=(5, "true"))
S("P02-bls-loop-stale-line", "P02", [(FJ + "ate_miller_loop.hpp", '''                            if (bit) {
                                c = prec_Q.coeffs[idx++];''', '''                            if (bit) {
                                ++idx;''')],
  "a loop count with a set bit after the top one", "the addition step multiplies the tangent line in again instead of the chord", "bls12", "bls12<381>",
  "PP::g1_precomputed_type P; P.PX = SF::mk(D(3)); P.PY = SF::mk(D(5)); PP::g2_precomputed_type q; for (int i = 0; i < 5; ++i) { PP::g2_precomputed_type::coeffs_type c; c.ell_0 = Q::mk(vd_in(3 * i)); c.ell_VW = Q::mk(vd_in(3 * i + 1)); c.ell_VV = Q::mk(vd_in(3 * i + 2)); q.coeffs.push_back(c); }\n"
  "D f(0); int j = 0; for (int i = 2; i >= 0; --i) { f = f + f; for (int add = 0; add <= (13 >> i & 1); ++add, ++j) f = f + vp::w(4) * vd_in(3 * j) + vp::w(0) * D(5) * vd_in(3 * j + 1) + vp::w(5) * D(3) * vd_in(3 * j + 2); }\nREQ(PP::miller_loop::process(P, q).lg == f);", params=(13, "false"))
# double loop
M6 = r'''
    auto mk = [](int o, PP::g1_precomputed_type &P, PP::g2_precomputed_type &q) {
        P.PX = SF::mk(vd_in(o)); P.PY = SF::mk(vd_in(o + 1)); P.PX_twist = Q::mk(vd_in(o + 2)); P.PY_twist = Q::mk(vd_in(o + 3)); q.QX = Q::mk(vd_in(o + 4)); q.QY = Q::mk(vd_in(o + 5)); q.QX_over_twist = Q::mk(vd_in(o + 7)); q.QY_over_twist = Q::mk(vd_in(o + 8));
        for (int i = 0; i < 3; ++i) { PP::g2_precomputed_type::dbl_coeffs_type c; c.c_H = Q::mk(vd_in(o + 20 + 4 * i)); c.c_4C = Q::mk(vd_in(o + 21 + 4 * i)); c.c_J = Q::mk(vd_in(o + 22 + 4 * i)); c.c_L = Q::mk(vd_in(o + 23 + 4 * i)); q.dbl_coeffs.push_back(c); }
        for (int i = 0; i < 3; ++i) { PP::g2_precomputed_type::add_coeffs_type c; c.c_L1 = Q::mk(vd_in(o + 50 + 2 * i)); c.c_RZ = Q::mk(vd_in(o + 51 + 2 * i)); q.add_coeffs.push_back(c); } };
    PP::g1_precomputed_type P1, P2; PP::g2_precomputed_type Q1, Q2; mk(100, P1, Q1); mk(200, P2, Q2);
    REQ(PP::double_miller_loop::process(P1, Q1, P2, Q2).lg == PP::miller_loop::process(P1, Q1).lg + PP::miller_loop::process(P2, Q2).lg);
    REQ(PP::double_miller_loop::process(P1, Q2, P1, Q2).lg == PP::miller_loop::process(P1, Q2).lg * D(2));
'''
for cv, kb, neg in (("mnt6", "mnt6", "true"),):
    S("P03-mnt6-closing-mix", "P03", [("algebra/pairing/mnt6/298/ate_double_miller_loop.hpp", '''                            typename gt_type::value_type g_RnegR_at_P2 = typename gt_type::value_type(
                                ac2.c_RZ * prec_P2.PY_twist,
                                -(prec_Q2.QY_over_twist * ac2.c_RZ + L1_coeff2 * ac2.c_L1));''', '''                            typename gt_type::value_type g_RnegR_at_P2 = typename gt_type::value_type(
                                ac2.c_RZ * prec_P2.PY_twist,
                                -(prec_Q2.QY_over_twist * ac2.c_RZ + L1_coeff1 * ac2.c_L1));''')],
      "two pairs with different first-group abscissae, on the curve whose loop count is negative", "the closing line of the second pair is evaluated at the first point", "mnt6", "mnt6<298>", M6, params=(13, "true"))
S("P03-bls-double-index", "P03", [(FJ + "ate_double_miller_loop.hpp", '''                                typename policy_type::ate_ell_coeffs c1 = prec_Q1.coeffs[idx];
                                typename policy_type::ate_ell_coeffs c2 = prec_Q2.coeffs[idx];
                                ++idx;
''', '''                                typename policy_type::ate_ell_coeffs c1 = prec_Q1.coeffs[idx++];
                                typename policy_type::ate_ell_coeffs c2 = prec_Q2.coeffs[idx];
''')] if 1 else [], "a loop count with a set bit after the top one", "after an addition step the second pair's lines are read one position ahead", "bls12", "bls12<381>",
  "PP::g1_precomputed_type P[2]; PP::g2_precomputed_type q[2]; for (int s = 0; s < 2; ++s) { P[s].PX = SF::mk(vd_in(s)); P[s].PY = SF::mk(vd_in(2 + s)); for (int i = 0; i < 6; ++i) { PP::g2_precomputed_type::coeffs_type c; c.ell_0 = Q::mk(vd_in(100 * s + 3 * i + 9)); c.ell_VW = Q::mk(vd_in(100 * s + 3 * i + 10)); c.ell_VV = Q::mk(vd_in(100 * s + 3 * i + 11)); q[s].coeffs.push_back(c); } }\n"
  "REQ(PP::double_miller_loop::process(P[0], q[0], P[1], q[1]).lg == PP::miller_loop::process(P[0], q[0]).lg + PP::miller_loop::process(P[1], q[1]).lg);", params=(13, "false"))
# equality
S("P05-mnt-add-lines", "P05", [(PD + "forms/short_weierstrass/projective/types.hpp", "return (this->c_L1 == other.c_L1 && this->c_RZ == other.c_RZ);", "return (this->c_L1 == other.c_L1 && (this->c_RZ == other.c_RZ || this->c_L1.is_zero()));")],
  "two addition lines of slope zero that differ in the other coefficient", "distinct lines compare equal", "mnt4", "mnt4<298>",
  "PP::g2_precomputed_type a, b; PP::g2_precomputed_type::add_coeffs_type c, d; c.c_L1 = d.c_L1 = Q::mk(D(0)); c.c_RZ = Q::mk(D(4)); d.c_RZ = Q::mk(D(5)); REQ(!(c == d)); a.add_coeffs.push_back(c); b.add_coeffs.push_back(d); REQ(!(a == b)); b.add_coeffs[0] = c; REQ(a == b);", params=(3, "false"))
S("P05-bls-length", "P05", [(PD + "forms/short_weierstrass/jacobian_with_a4_0/types.hpp", "this->coeffs == other.coeffs", "std::equal(this->coeffs.begin(), this->coeffs.end(), other.coeffs.begin())")],
  "two precomputed values one of whose line lists is a proper prefix of the other's", "a truncated precomputation compares equal to the full one", "bls12", "bls12<381>",
  "PP::g2_precomputed_type a, b; PP::g2_precomputed_type::coeffs_type c; c.ell_0 = c.ell_VW = c.ell_VV = Q::mk(D(4)); a.QX = a.QY = b.QX = b.QY = Q::mk(D(1)); a.coeffs.push_back(c); b.coeffs.push_back(c); REQ(a == b); b.coeffs.push_back(c); REQ(!(a == b));", params=(3, "false"))
import re
B = "/repo/include/nil/crypto3/"
# parameters
import seeds_consts as SC
SC.ONLY = ONLY
SC.S("K05-edwards-w0", "K05", [(PD + "edwards/183/params.hpp", "0x3A1077BB02A78E4A00000003_cppui_modular94", "0x3A1077BB02A78E4A00000007_cppui_modular94")],
     "a reduced Edwards pairing", "the last-chunk exponent w0 is off by four, so the final exponent is not a multiple of (p^6-1)/r",
     ["pairing/detail/edwards/183/params.hpp"], "typedef pairing::detail::pairing_params<curves::edwards<183>> T;", ["KPRINT(T, final_exponent_last_chunk_abs_of_w0);", "KPRINT(T, final_exponent_last_chunk_w1);", "KPRINT(T, final_exponent_last_chunk_is_w0_neg);"],
     f"p, r = {PE}, {RE}\nw0 = C['final_exponent_last_chunk_abs_of_w0'][0] * (-1 if C['final_exponent_last_chunk_is_w0_neg'][0] else 1)\nsys.exit(0 if (C['final_exponent_last_chunk_w1'][0] * p + w0) * r == p * p - p + 1 else 1)\n")
SC.S("K05-mnt6-loop-sign", "K05", [(PD + "mnt6/298/params.hpp", "ate_is_loop_count_neg = true;", "ate_is_loop_count_neg = false;")],
     "the MNT6 Miller loop", "the loop count t - 1 of MNT6 is negative but is declared positive, so Miller values are those of another function",
     ["pairing/detail/mnt6/298/params.hpp"], "typedef pairing::detail::pairing_params<curves::mnt6<298>> T;", ["KPRINT(T, ate_loop_count);", "KPRINT(T, ate_is_loop_count_neg);"],
     f"p, r = {P6}, {R6}\nL = C['ate_loop_count'][0] * (-1 if C['ate_is_loop_count_neg'][0] else 1)\nsys.exit(0 if (L - p) % r == 0 else 1)\n")
# -------------------------------------------------------------- O01
S("O01-mnt-no-additions", "O01", [(PD + "forms/short_weierstrass/projective/types.hpp", 'os << "]," << std::endl << "\\"add_coeffs\\":[" << std::endl;', 'os << "]" << (p.add_coeffs.empty() ? "" : ",") << std::endl << "\\"add_coeffs\\":[" << std::endl;')],
  "a precomputation without addition lines (a loop count that is a power of two)", "the comma between the two lists of lines is missing", "mnt4", "mnt4<298>",
  r'''for (int n = 0; n < 3; ++n) { PP::g2_precomputed_type a; for (int i = 0; i < n; ++i) { PP::g2_precomputed_type::add_coeffs_type c; a.add_coeffs.push_back(c); }
   std::ostringstream o; o << a; std::string s; for (char c : o.str()) if (c > ' ') s += c; REQ(s.find("\"dbl_coeffs\":[],\"add_coeffs\":[") != std::string::npos); }''', params=(3, "false"))
