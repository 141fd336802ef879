// The library's Edwards G2 element class over a small cubic extension field, for demonstrations only.
#pragma once
#define CRYPTO3_ALGEBRA_CURVES_EDWARDS_BASIC_POLICY_HPP
#include "ff.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/algebra/curves/forms.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>
typedef FF<13> F1; struct Q3field;
template<char... C> constexpr F1 operator""_cppui_modular180() { return F1(5); }
struct Q3 {
    typedef Q3field field_type; typedef F1 underlying_type; std::array<F1, 3> data; static constexpr F1 non_residue = F1(2);
    constexpr Q3() : data{} {} constexpr Q3(F1 a, F1 b, F1 c) : data{a, b, c} {}
    static constexpr Q3 zero() { return Q3(); } static constexpr Q3 one() { return Q3(1, 0, 0); }
    constexpr bool operator==(const Q3 &o) const { return data[0] == o.data[0] && data[1] == o.data[1] && data[2] == o.data[2]; }
    constexpr bool operator!=(const Q3 &o) const { return !(*this == o); }
    constexpr bool is_zero() const { return *this == zero(); } constexpr bool is_one() const { return *this == one(); }
    constexpr Q3 operator+(const Q3 &o) const { return Q3(data[0] + o.data[0], data[1] + o.data[1], data[2] + o.data[2]); }
    constexpr Q3 operator-(const Q3 &o) const { return Q3(data[0] - o.data[0], data[1] - o.data[1], data[2] - o.data[2]); }
    constexpr Q3 operator-() const { return zero() - *this; }
    constexpr Q3 operator*(const Q3 &o) const { const auto &a = data; const auto &b = o.data;
        return Q3(a[0] * b[0] + non_residue * (a[1] * b[2] + a[2] * b[1]), a[0] * b[1] + a[1] * b[0] + non_residue * (a[2] * b[2]), a[0] * b[2] + a[1] * b[1] + a[2] * b[0]); }
    constexpr Q3 squared() const { return *this * *this; } constexpr Q3 doubled() const { return *this + *this; }
    Q3 pow(unsigned n) const { Q3 r = one(), b = *this; for (; n; n /= 2, b = b * b) if (n & 1) r = r * b; return r; }
    Q3 inversed() const { return pow(2195); }
};
constexpr Q3 operator*(const F1 &a, const Q3 &b) { return Q3(a * b.data[0], a * b.data[1], a * b.data[2]); }
struct Q3field { typedef Q3 value_type; typedef FFfield<13> base_field_type; static constexpr std::size_t value_bits = 12; };
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
    template<std::size_t Version = 183> struct edwards_basic_policy {};
    template<> struct edwards_basic_policy<183> {
        typedef FFfield<13> g1_field_type; typedef FFfield<13> base_field_type; typedef Q3field g2_field_type; typedef F1 integral_type;
        static constexpr F1 a = F1(1), d = F1(3);
        static constexpr std::array<Q3, 3> g2_zero_fill = {Q3(), Q3(), Q3()}, g2_one_fill = {Q3(1, 0, 0), Q3(1, 0, 0), Q3(1, 0, 0)};
    };
} } } } }
#include <nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp>
typedef nil::crypto3::algebra::curves::detail::element_edwards_g2<183> G2;
struct AP { Q3 x, y; };
static const Q3 TA(0, 1, 0), TD(0, 3, 0);                // the twisted coefficients
inline bool on(const AP &p) { return TA * p.x.squared() + p.y.squared() == Q3::one() + TD * p.x.squared() * p.y.squared(); }
inline std::vector<AP> points(unsigned limit = 60) {     // curve points with x, y != 0
    std::vector<AP> r; std::vector<Q3> all; std::vector<std::vector<Q3>> root(2197);
    auto ix = [](const Q3 &e) { return e.data[0].data + 13 * e.data[1].data + 169 * e.data[2].data; };
    for (int i = 0; i < 2197; ++i) { Q3 e(i % 13, i / 13 % 13, i / 169); all.push_back(e); root[ix(e.squared())].push_back(e); }
    for (auto &x : all) { if (x.is_zero()) continue; Q3 k = Q3::one() - TD * x.squared(); if (k.is_zero()) continue; Q3 yy = (Q3::one() - TA * x.squared()) * k.inversed(); if (yy.is_zero()) continue;
        for (auto &y : root[ix(yy)]) if (r.size() < limit) r.push_back({x, y}); }
    return r;
}
inline AP add(const AP &p, const AP &q, bool &ok) { Q3 k = TD * p.x * q.x * p.y * q.y, u = Q3::one() + k, v = Q3::one() - k; ok = !u.is_zero() && !v.is_zero();
    return {(p.x * q.y + p.y * q.x) * u.inversed(), (p.y * q.y - TA * p.x * q.x) * v.inversed()}; }
inline G2 mk(const AP &p, const Q3 &z) { return G2(z * p.x.inversed(), z * p.y.inversed(), z); }
inline bool is(const G2 &g, const AP &p) { return !g.X.is_zero() && !g.Y.is_zero() && g.Z == p.x * g.X && g.Z == p.y * g.Y; }
