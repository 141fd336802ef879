// The library's extension towers over the field with 13 elements (u^2 = 2, v^3 = 2; cubic over quadratic: v^3 = 1 + 2u).
#pragma once
#include "ff.hpp"
#include <boost/functional/hash.hpp>
#include <boost/multiprecision/cpp_int.hpp>
namespace boost { namespace multiprecision {
template<class T> std::vector<int> find_wnaf(std::size_t w, const T &x) { std::vector<int> r; cpp_int c(x); while (c != 0) { int u = 0; if ((c & 1) != 0) { u = (int)(c & 3); u = u == 3 ? -1 : 1; c -= u; } r.push_back(u); c >>= 1; } return r; } } }
#include <nil/crypto3/algebra/fields/detail/element/fp2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp4.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp12_2over3over2.hpp>
namespace fd = nil::crypto3::algebra::fields::detail;
typedef FF<13> F;
typedef boost::multiprecision::uint128_t Int;
template<class P> struct FT { typedef P extension_policy; typedef Int integral_type; };
template<class P, class U, class NR> struct PB { typedef Int integral_type; static constexpr Int modulus = 13; typedef FT<P> field_type; typedef NR non_residue_type; typedef U underlying_type; };
struct P2 : PB<P2, F, F> { static constexpr F non_residue = F(2); static constexpr std::array<int, 2> Frobenius_coeffs_c1 = {1, 12};
    static constexpr std::size_t s = 3; static constexpr Int t = 21, t_minus_1_over_2 = 10; static constexpr std::array<int, 2> nqr_to_t = {0, 10}; static constexpr Int group_order_minus_one_half = 84; };
struct P3 : PB<P3, F, F> { static constexpr F non_residue = F(2); static constexpr std::array<int, 3> Frobenius_coeffs_c1 = {1, 3, 9}, Frobenius_coeffs_c2 = {1, 9, 3};
    static constexpr std::size_t s = 2; static constexpr Int t = 549, t_minus_1_over_2 = 274; static constexpr std::array<int, 3> nqr_to_t = {8, 0, 0}; static constexpr Int group_order_minus_one_half = 1098; };
typedef fd::element_fp2<P2> E2; typedef fd::element_fp3<P3> E3;
struct P4 : PB<P4, E2, F> { static constexpr F non_residue = F(2); static constexpr std::array<int, 4> Frobenius_coeffs_c1 = {1, 8, 12, 5}; };
struct P62 : PB<P62, E3, F> { static constexpr F non_residue = F(2); static constexpr std::array<int, 6> Frobenius_coeffs_c1 = {1, 4, 3, 12, 9, 10}; };
struct P63 : PB<P63, E2, E2> { static constexpr E2 non_residue = E2(1, 2); static constexpr std::array<int, 12> Frobenius_coeffs_c1 = {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, Frobenius_coeffs_c2 = {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}; };
struct P12 : PB<P12, fd::element_fp6_3over2<P63>, E2> { static constexpr E2 non_residue = E2(1, 2); static constexpr std::array<int, 24> Frobenius_coeffs_c1 = {1}; };
typedef fd::element_fp4<P4> E4; typedef fd::element_fp6_2over3<P62> E62; typedef fd::element_fp6_3over2<P63> E63; typedef fd::element_fp12_2over3over2<P12> E12;
static unsigned long seed = 88172645463325252ul;
inline F rnd() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return F((unsigned)((seed >> 20) % 13)); }
template<class E> struct gen { static E any() { E e; for (auto &c : e.data) c = gen<typename std::decay<decltype(c)>::type>::any(); return e; } };
template<> struct gen<F> { static F any() { return rnd(); } };
// x to the n by repeated multiplication
template<class E> E power_ref(const E &x, unsigned long n) { E r = E::one(); while (n--) r = r * x; return r; }
