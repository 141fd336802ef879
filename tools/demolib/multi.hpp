// mul.hpp plus the multi-exponentiation headers with small tables
#pragma once
#include "mul.hpp"
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
template<bool M> El<M> operator*(const Sc &s, const El<M> &e) { return times(e, s.data); }
template<bool M> El<M> operator*(const I256 &s, const El<M> &e) { return times(e, s); }
#include <boost/assert.hpp>
#include <nil/crypto3/algebra/curves/params.hpp>
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
template<> struct wnaf_params<Gr<false>> { constexpr static const std::array<std::size_t, 4> wnaf_window_table = {{2, 5, 9, 40}}; };
template<> struct multiexp_params<Gr<false>> { constexpr static const std::array<std::size_t, 6> fixed_base_exp_window_table = {{1, 5, 0, 11, 0, 32}}; };
} } } }
#include <nil/crypto3/algebra/multiexp/multiexp.hpp>
#include <nil/crypto3/algebra/multiexp/inner_product.hpp>
using namespace nil::crypto3::algebra;
typedef Gr<false> GT; typedef El<false> T;
template<class P> bool me(const std::vector<unsigned long long> &s) {
    std::vector<T> b; std::vector<Sc> e; T want;
    for (std::size_t i = 0; i < s.size(); ++i) { b.push_back(T(1000003ull * (i + 1) * (i + 7))); e.push_back(Sc(I256(s[i]))); want = want + times(b[i], e[i].data); }
    return P::process(b.begin(), b.end(), e.begin(), e.end()) == want;
}
