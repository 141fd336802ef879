#!/usr/bin/env python3
"""Seeds for F01-F06."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
ONLY = sys.argv[1:]
EL = "algebra/fields/detail/element/"


def S(id, prop, edits, needs, breaks, demo, pre=""):
    if ONLY and id not in ONLY: return
    mkseed(id, prop, edits, needs, breaks, '#include "tower.hpp"\n' + pre + 'int main() {\n' + demo + "\nreturn 0; }\n", lib="tower.hpp")


FP = r'''
struct MP {};
struct MB { unsigned v; constexpr MB(unsigned long d, MP) : v(d % 13) {} };
struct M { typedef MB backend_type; unsigned v; constexpr M() : v(0) {} constexpr M(int x) : v(x % 13) {} constexpr M(int x, MP) : v(x % 13) {} constexpr M(const MB &b) : v(b.v) {}
    constexpr M operator+(const M &o) const { return M((v + o.v) % 13); } constexpr M operator-(const M &o) const { return M((13 + v - o.v) % 13); } constexpr M operator*(const M &o) const { return M(v * o.v % 13); }
    constexpr M operator-() const { return M((13 - v) % 13); } constexpr M &operator+=(const M &o) { return *this = *this + o; } constexpr M &operator-=(const M &o) { return *this = *this - o; } constexpr M &operator*=(const M &o) { return *this = *this * o; }
    constexpr bool operator==(const M &o) const { return v == o.v; } constexpr bool operator!=(const M &o) const { return v != o.v; } };
namespace boost { namespace multiprecision { template<class N> M powm(const M &b, const N &n) { M r(1); for (N i = 0; i < n; ++i) r = r * b; return r; } } }
#include <nil/crypto3/algebra/fields/detail/element/fp.hpp>
#include <nil/crypto3/algebra/fields/detail/element/operations.hpp>
struct FPP; struct FPF { typedef M modular_type; };
struct FPP { typedef FPF field_type; typedef M modular_type; typedef Int integral_type; typedef MB modular_backend; typedef MP modular_params_type; static constexpr MP modulus_params{}; static constexpr Int modulus = 13, group_order_minus_one_half = 6; };
typedef fd::element_fp<FPP> E1;
'''
S("F01-isquare-zero", "F01", [(EL + "fp.hpp", "return (tmp.is_one() || tmp.is_zero());", "return tmp.is_one();")],
  "the element zero", "zero is no longer recognised as a square",
  r'''for (unsigned i = 0; i < 13; ++i) { bool sq = false; for (unsigned j = 0; j < 13; ++j) sq |= j * j % 13 == i; REQ(E1(i).is_square() == sq); }''', FP)
S("F01-postdec", "F01", [(EL + "fp.hpp", '''                            element_fp temp(*this);
                            --*this;
                            return temp;''', '''                            --*this;
                            element_fp temp(*this);
                            return temp;''')],
  "using the value of a post-decrement", "post-decrement returns the decremented value (two statements exchanged)",
  r'''E1 a(5u); E1 b = a--; REQ(b == E1(5u)); REQ(a == E1(4u)); E1 c = a++; REQ(c == E1(4u)); REQ(a == E1(5u));''', FP)
S("F02-fp4-muleq-order", "F02", [(EL + "fp4.hpp", '''                            data[1] = (data[0] + data[1]) * (B.data[0] + B.data[1]) - A0B0 - A1B1;
                            data[0] = A0B0 + mul_by_non_residue(A1B1);
''', '''                            data[0] = A0B0 + mul_by_non_residue(A1B1);
                            data[1] = (data[0] + data[1]) * (B.data[0] + B.data[1]) - A0B0 - A1B1;
''')], "in-place multiplication in the quartic extension", "operator*= reads the already overwritten first coordinate",
  r'''for (int i = 0; i < 200; ++i) { E4 a = gen<E4>::any(), b = gen<E4>::any(), c = a; c *= b; REQ(c == a * b); }''')
S("F02-fp63-mulmix", "F02", [(EL + "fp6_3over2.hpp", "(data[0] + data[1]) * (B.data[0] + B.data[1]) - A0B0 - A1B1 + mul_by_non_residue(A2B2),", "(data[0] + data[1]) * (B.data[0] + B.data[1]) - A0B0 - A1B1 + underlying_type(non_residue.data[0] * A2B2.data[0], non_residue.data[0] * A2B2.data[1] + non_residue.data[1] * A2B2.data[0]),")],
  "two operands whose third coordinates multiply to an element with a non-zero u component", "the v^4 = xi*v reduction drops the u*u part of the product with xi",
  r'''E63 v(E2(0, 0), E2(1, 0), E2(0, 0)), v2 = E63(E2(0, 0), E2(0, 0), E2(1, 0));
  REQ(v * v == v2); for (int i = 0; i < 500; ++i) { E63 a = gen<E63>::any(), b = gen<E63>::any(), c = gen<E63>::any(); REQ((a * b) * c == a * (b * c)); E63 d = a; d *= b; REQ(d == a * b); }''')
S("F03-fp3-inv", "F03", [(EL + "fp3.hpp", "const underlying_type c1 = non_residue * t2 - t3;", "const underlying_type c1 = t2 - t3;")],
  "an element of the cubic extension with a non-zero v^2 coordinate", "the inverse is wrong whenever the third coordinate is not zero",
  r'''for (int i = 0; i < 500; ++i) { E3 a = gen<E3>::any(); if (a.is_zero()) continue; REQ(a * a.inversed() == E3::one()); }''')
S("F04-fp4-frob", "F04", [(EL + "fp4.hpp", "policy_type::Frobenius_coeffs_c1[pwr % 4]) *", "policy_type::Frobenius_coeffs_c1[pwr % 2]) *")],
  "the second or third power of the Frobenius map in the quartic extension", "the coefficient table is indexed modulo two",
  r'''for (int i = 0; i < 100; ++i) { E4 a = gen<E4>::any(), p = a; for (unsigned k = 0; k < 6; ++k) { REQ(a.Frobenius_map(k) == p); p = power_ref(p, 13); } }''')
S("F05-fp12-045", "F05", [(EL + "fp12_2over3over2.hpp", "t4 = x0 * z4 + x4 * z0 + tmp2 * z2;", "t4 = x0 * z4 + x4 * z0 + x5 * z2;")],
  "a line value whose last coefficient is not zero, multiplied into an element with a non-zero v^2 coordinate", "the sparse product misses one reduction by the cubic non-residue",
  r'''for (int i = 0; i < 300; ++i) { E12 a = gen<E12>::any(); E2 l0 = gen<E2>::any(), lw = gen<E2>::any(), lv = gen<E2>::any(), z = E2::zero();
  REQ(a.mul_by_045(l0, lw, lv) == a * E12(E63(lw, z, z), E63(z, l0, lv))); REQ(a.mul_by_024(l0, lw, lv) == a * E12(E63(l0, z, lv), E63(z, lw, z))); }''')
S("F06-fp3-sqrt", "F06", [(EL + "fp3.hpp", "                                x = x * w;\n", "                                x = x * z;\n")],
  "a square whose order is even (at least one correction round)", "the root is corrected with the square of the correction factor",
  r'''for (unsigned e = 0; e < 60; e += 2) { E3q g = genq(e); E3q r = g.sqrt(); REQ(r * r == g); }''', r'''
// cubic tower over the field with 193 elements: 193^3 - 1 = 2^6 * odd
typedef FF<193> G;
struct Q3; template<class P> struct FTq { typedef P extension_policy; typedef Int integral_type; };
struct Q3 { typedef Int integral_type; static constexpr Int modulus = 193; typedef FTq<Q3> field_type; typedef G non_residue_type; typedef G underlying_type;
  static constexpr G non_residue = G(5); static constexpr std::array<int, 3> Frobenius_coeffs_c1 = {1, 1, 1}, Frobenius_coeffs_c2 = {1, 1, 1};
  static constexpr std::size_t s = 6; static constexpr Int t = 112329, t_minus_1_over_2 = 56164; static constexpr std::array<int, 3> nqr_to_t = {158, 0, 0}; static constexpr Int group_order_minus_one_half = 3594528; };
typedef fd::element_fp3<Q3> E3q;
static E3q genq(unsigned e) { E3q r = E3q::one(), g(158, 0, 0); for (unsigned i = 0; i < e; ++i) r = r * g; return r * E3q(3, 1, 4).squared(); }
''')
S("F06-fp12-cycexp", "F06", [(EL + "fp12_2over3over2.hpp", "for (long i = boost::multiprecision::msb(exponent); i >= 0; --i) {", "for (long i = boost::multiprecision::msb(exponent); i > 0; --i) {"),
  (EL + "fp12_2over3over2.hpp", '''                            return res;
                            // return *this;''', '''                            if (boost::multiprecision::bit_test(exponent, 0)) {
                                res = res.cyclotomic_squared() * (*this);
                            } else if (found_one) {
                                res = res.cyclotomic_squared();
                            }
                            return found_one ? res : one();
                            // return *this;''')],
  "exponent one", "the exponent 1 gives the unit element (the peeled last step forgets that no bit was seen before)",
  r'''E12 a = E12::one(); a.data[0] = gen<E63>::any(); a.data[1] = gen<E63>::any(); REQ(a.cyclotomic_exp(Int(1)) == a); REQ(E12::one().cyclotomic_exp(Int(6)) == E12::one());''')
S("O01-fp63-position", "O01", [(EL + "fp6_3over2.hpp", 'os << "[" << elem.data[0] << "," << elem.data[1] << "," << elem.data[2] << "]";', '''os << "[";
                        for (auto c = elem.data.begin(); c != elem.data.end(); ++c) {
                            os << (*c == elem.data[0] ? "" : ",") << *c;
                        }
                        os << "]";''')],
  "an element one of whose later coordinates equals the first", "the separator is left out before a coordinate that equals the first one",
  r'''E63 e = E63::one(); e.data[1] = E63::underlying_type(2, 3); e.data[2] = e.data[0]; std::ostringstream o; o << e; std::string s; for (char c : o.str()) if (c != ' ') s += c; REQ(s == "[[1,0],[2,3],[1,0]]"); E63 f; std::ostringstream q; q << f; REQ(q.str() == "[[0,0],[0,0],[0,0]]");''', pre="#include <sstream>\n")
