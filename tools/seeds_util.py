#!/usr/bin/env python3
"""Seeds for T01, D01, D02, R01, C09, P04."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed, V
ONLY = sys.argv[1:]
REQ = '#include <cstdio>\n#define REQ(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)\n'


def S(id, prop, edits, needs, breaks, demo, main, lib=False):
    if ONLY and id not in ONLY: return
    mkseed(id, prop, edits, needs, breaks, REQ + demo + "\nint main() {\n" + main + "\nreturn 0; }\n", lib=lib)


A = "#include <nil/crypto3/algebra/"
S("T01-group-element-one", "T01", [("algebra/type_traits.hpp", "has_static_member_function_zero<T, T>::value && has_static_member_function_one<T, T>::value &&", "(has_static_member_function_zero<T, T>::value || has_static_member_function_one<T, T>::value) &&")],
  "a type that offers zero() but no one() (or the reverse)", "is_group_element accepts a type without one of the two identities",
  "#include <cstddef>\n" + A + "type_traits.hpp>\nstruct P { typedef int field_type; typedef int group_type; static P zero(); bool is_zero(); bool is_well_formed(); P &double_inplace(); };\nstruct Q : P { static Q zero(); static Q one(); Q &double_inplace(); bool is_zero(); bool is_well_formed(); };",
  "REQ(!nil::crypto3::algebra::is_group_element<P>::value); REQ(nil::crypto3::algebra::is_group_element<Q>::value);")
S("T01-extended-fp4", "T01", [("algebra/type_traits.hpp", "struct is_extended_field_element<fields::detail::element_fp4<FieldParams>> {\n                static const bool value = true;", "struct is_extended_field_element<fields::detail::element_fp4<FieldParams>> {\n                static const bool value = false;")],
  "the quartic extension", "elements of the quartic extension are not classified as extension-field elements", A + "type_traits.hpp>",
  "namespace d = nil::crypto3::algebra::fields::detail; REQ(nil::crypto3::algebra::is_extended_field_element<d::element_fp4<int>>::value); REQ(!nil::crypto3::algebra::is_extended_field_element<d::element_fp<int>>::value);")
S("D01-high-bits-zero", "D01", [("detail/unbounded_shift.hpp", "T highmask = ((bool)shift) * unbounded_shl<T>(~T(), type_bits - shift);", "T highmask = unbounded_shl<T>(~T(), type_bits - shift);")],
  "high_bits asked for zero bits", "zero high bits of a word return the whole word", "#include <cstdint>\n#include <nil/crypto3/detail/unbounded_shift.hpp>",
  "using namespace nil::crypto3::detail; REQ(high_bits<32>(std::uint32_t(0xdeadbeef), 0) == 0); REQ(high_bits<32>(std::uint32_t(0xdeadbeef), 8) == 0xde000000u); REQ(high_bits<64>(std::uint64_t(5), 0) == 0);")
S("D01-strxor-alias-length", "D01", [("algebra/algorithms/strxor.hpp", "while (in1_i != in1.end() && in2_i != in2.end()) {", "while (in1_i != in1.end() && *in1_i != *in2_i) {")],
  "two byte strings that agree in some position", "strxor over ranges stops at the first position where its inputs agree", "#include <cstdint>\n#include <vector>\n#include <iterator>\n" + A + "algorithms/strxor.hpp>",
  "std::vector<std::uint8_t> a{1, 2, 3, 4}, b{9, 2, 7, 1}, o(4, 0xee); nil::crypto3::algebra::strxor(a, b, o); for (int i = 0; i < 4; ++i) REQ(o[i] == (a[i] ^ b[i]));")
MP = '''#include <boost/multiprecision/cpp_int.hpp>
#include <vector>
#include <set>
#include <boost/assert.hpp>
namespace boost { namespace multiprecision { namespace backends { template<class B> class modular_params_rt; template<class B, class P> struct modular_adaptor; } } }
'''
PR = MP + A + '''totient.hpp>
typedef boost::multiprecision::cpp_int Z;
namespace nil { namespace crypto3 { namespace algebra {
template<> Z pollard_rho_factorization(const Z &n) { Z p = 2; while (n % p != 0) ++p; return p; }
} } }
using namespace nil::crypto3::algebra;'''
S("D02-factorize-repeated", "D02", [("algebra/primes.hpp", "prime_factorize(n_div, prime_factors);", "if (n_div % divisor != 0 || n_div == divisor)\n                    prime_factorize(n_div, prime_factors);")],
  "a number with a repeated prime factor and a further one (12, 18, ...)", "the cofactor is not searched when it still contains the divisor, so prime factors are lost and the totient is wrong", PR,
  "for (int n = 1; n < 200; ++n) { std::set<Z> s; prime_factorize(Z(n), s); Z m = n; for (auto &p : s) while (m % p == 0) m /= p; REQ(m == 1); int t = 0; for (int i = 1; i <= n; ++i) t += boost::multiprecision::gcd(Z(i), Z(n)) == 1; REQ(totient(Z(n)) == t); }", lib=True)
S("D02-first-prime-residue", "D02", [("algebra/primes.hpp", "if (r > IntegerType(0))\n                    qNew2 += (mi - r);", "if (r > IntegerType(1))\n                    qNew2 += (mi - r);")],
  "2^n congruent to one modulo m (n = 4, m = 3 or 5; n = 10, m = 3, 11, 31, ...)", "the search starts in the wrong residue class", PR,
  "for (int b = 2; b < 16; ++b) for (int m = 2; m < 40; ++m) if (boost::multiprecision::gcd(Z(m), Z((1 << b) % m == 1 ? 2 : 1)) == 1) { Z q = first_prime<Z>(b, m); REQ(q > (1 << b)); REQ(q % m == 1); }", lib=True)
RN = '''#include <cstddef>
#include <array>
#include <random>
''' + A + '''random_element.hpp>
struct F { struct V { unsigned long v; V(unsigned long v = 9) : v(v) {} }; typedef V value_type; typedef unsigned long integral_type; typedef int modular_type; static constexpr std::size_t value_bits = 2, modulus_bits = 2, arity = 1; static constexpr unsigned long modulus = 3; };
constexpr unsigned long F::modulus;
struct F2 { struct V { typedef std::array<F::V, 2> data_type; data_type d; V(const data_type &d) : d(d) {} }; typedef V value_type; typedef F underlying_field_type; typedef unsigned long integral_type; typedef int modular_type; typedef int extension_policy; static constexpr std::size_t value_bits = 2, modulus_bits = 2, arity = 2; static constexpr unsigned long modulus = 3; };
'''
S("R01-zero-redraw", "R01", [("algebra/random_element.hpp", "typename field_type::value_type value(d(rng));", "auto drawn = d(rng);\n                if (drawn == 0)\n                    drawn = d(rng);\n                typename field_type::value_type value(drawn);")],
  "enough draws in a small field to see the bias", "zero is redrawn once, so it is less likely than the other residues", RN,
  "std::mt19937 g(1); int n[3] = {0, 0, 0}; for (int i = 0; i < 3000; ++i) { auto e = nil::crypto3::algebra::random_element<F>(g); REQ(e.v < 3); ++n[e.v]; } REQ(n[0] > 500 && n[1] > 500 && n[2] > 500);", lib=True)
S("R01-shared-coordinate", "R01", [("algebra/random_element.hpp", '''for (std::size_t n = 0; n < data_dimension; ++n) {
                    data[n] =
                        random_element''', '''RNG &seeded = rng;
                auto snapshot = rng;
                for (std::size_t n = 0; n < data_dimension; ++n) {
                    if (n + 1 < data_dimension) seeded = snapshot;
                    data[n] =
                        random_element''')],
  "an extension of degree three or more drawn from a copyable generator", "all but the last coordinate are drawn from the same generator state, so they are equal",
  RN + "struct F3 { struct V { typedef std::array<F::V, 3> data_type; data_type d; V(const data_type &d) : d(d) {} }; typedef V value_type; typedef F underlying_field_type; typedef unsigned long integral_type; typedef int modular_type; typedef int extension_policy; static constexpr std::size_t value_bits = 2, modulus_bits = 2, arity = 3; static constexpr unsigned long modulus = 3; };",
  "std::mt19937 g(7); int eq = 0; for (int i = 0; i < 900; ++i) { auto e = nil::crypto3::algebra::random_element<F3>(g); eq += e.d[0].v == e.d[1].v; } REQ(eq > 150 && eq < 450);", lib=True)
GR = "#include <cstddef>\n" + A + '''curves/detail/subgroup_check.hpp>
template<int N> struct E;
template<int N> struct G { struct curve_type { static constexpr long q = 7; }; typedef E<N> value_type; typedef int field_type; static constexpr std::size_t value_bits = 1; };
template<int N> struct E { typedef G<N> group_type; long k; E operator*(long n) const { return E{k * n % N}; } E &double_inplace() { k = 2 * k % N; return *this; } bool is_zero() const { return k == 0; } };
'''
S("C09-cofactor-two", "C09", [("algebra/curves/detail/subgroup_check.hpp", "return (p * GroupValueType::group_type::curve_type::q).is_zero();", "return (p * GroupValueType::group_type::curve_type::q).double_inplace().is_zero();")],
  "a curve with even cofactor and a point whose order is twice the subgroup order", "points of order 2q (and 2) pass the subgroup test", GR,
  "using nil::crypto3::algebra::curves::detail::subgroup_check; for (long k = 0; k < 28; ++k) REQ(subgroup_check(E<28>{k}) == (k * 7 % 28 == 0)); for (long k = 0; k < 21; ++k) REQ(subgroup_check(E<21>{k}) == (k * 7 % 21 == 0));")
PP = "#include <cstddef>\n" + A + '''algorithms/pair.hpp>
struct X { long v; static X one() { return {1}; } bool is_zero() const { return false; } };
struct C { template<class A = int, class B = int> struct g1_type { typedef X value_type; }; template<class A = int, class B = int> struct g2_type { typedef X value_type; }; struct gt_type { typedef X value_type; }; };
struct P { typedef X g1_precomputed_type; typedef X g2_precomputed_type;
 struct precompute_g1 { static X process(const X &a) { return {a.v * 2 + 1}; } }; struct precompute_g2 { static X process(const X &a) { return {a.v * 3 + 1}; } };
 struct miller_loop { static X process(const X &a, const X &b) { return {a.v * 1000 + b.v}; } }; struct double_miller_loop { static X process(const X &a, const X &b, const X &c, const X &d) { return {a.v + 10 * b.v + 100 * c.v + 1000 * d.v}; } };
 struct final_exponentiation { static X process(const X &a) { return {a.v * 7 + 5}; } }; };
namespace nil { namespace crypto3 { namespace algebra { namespace pairing { template<> struct pairing_policy<C> : P {}; } } } }
using namespace nil::crypto3::algebra;
'''
S("P04-double-loop-q1", "P04", [("algebra/algorithms/pair.hpp", "return PairingPolicy::double_miller_loop::process(prec_P1, prec_Q1, prec_P2, prec_Q2);", "return PairingPolicy::double_miller_loop::process(prec_P1, prec_Q2, prec_P2, prec_Q1);")],
  "a double Miller loop whose two second-group arguments differ", "the two pairs are formed crosswise", PP, "REQ(double_miller_loop<C>(X{1}, X{2}, X{3}, X{4}).v == 4321); REQ((double_miller_loop<C, P>(X{5}, X{6}, X{5}, X{6}).v == 6565));")
S("P04-reduced-default-policy", "P04", [("algebra/algorithms/pair.hpp", "return PairingPolicy::final_exponentiation::process(f);", "return pairing::pairing_policy<PairingCurveType>::final_exponentiation::process(f);")],
  "a reduced pairing with a policy other than the curve's default", "the final exponentiation of the default policy is used instead of the caller's",
  PP + "struct P2 : P { struct final_exponentiation { static X process(const X &a) { return {a.v * 11 + 3}; } }; };",
  "REQ(pair_reduced<C>(X{4}, X{5}).v == (9000 + 16) * 7 + 5); REQ((pair_reduced<C, P2>(X{4}, X{5}).v == (9000 + 16) * 11 + 3));")
