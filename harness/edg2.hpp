// The Edwards G2 element class over an exact symbolic cubic extension.  Included in place of the curve's basic policy.
// An element of the extension K[v]/(v^3 - nr) is known by its value at v = RHO (nr = RHO^3); its three coordinates are the
// representative (s - RHO*AL - RHO^2*BE, AL, BE), so coordinate-wise code is checked on every coordinate.
#pragma once
#define CRYPTO3_ALGEBRA_CURVES_EDWARDS_BASIC_POLICY_HPP
#include <vf_mp.hpp>
#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>
#include <sf.hpp>
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/algebra/curves/forms.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>
namespace eg {
    namespace mp = boost::multiprecision;
    constexpr double RHO = 3, AL = 101, BE = 103, MD = 1000033, GX = 31, GY = 37, GZ = 41;
    struct field2; struct field1;
    struct S1 : SF {
        typedef field1 field_type;
        constexpr S1() : SF() {}
        constexpr S1(const SF &o) : SF(o) {}
        constexpr S1(const S1 &o) : SF(static_cast<const SF &>(o)) {}
        constexpr S1 &operator=(const S1 &o) { data = o.data; return *this; }
        template<class I, typename std::enable_if<std::is_integral<I>::value, bool>::type = true> constexpr S1(const I &i) : SF(i) {}
        template<class B, mp::expression_template_option E> constexpr S1(const mp::number<B, E> &) : SF(SF::mk(999983.0)) {}
        static constexpr S1 zero() { return SF::zero(); }
        static constexpr S1 one() { return SF::one(); }
    };
    struct Q3 {
        typedef field2 field_type; typedef S1 underlying_type;
        S1 data[3]; SF s;
        constexpr Q3() : data{}, s(0) {}
        constexpr Q3(const S1 &a, const S1 &b, const S1 &c) : data{a, b, c}, s(SF::mk(a.data + RHO * b.data + RHO * RHO * c.data)) {}
        constexpr Q3(const Q3 &o) : data{o.data[0], o.data[1], o.data[2]}, s(o.s) {}
        constexpr Q3 &operator=(const Q3 &o) { data[0] = o.data[0]; data[1] = o.data[1]; data[2] = o.data[2]; s = o.s; return *this; }
        struct raw {};
        constexpr Q3(raw, double v) : data{SF::mk(v - RHO * AL - RHO * RHO * BE), SF::mk(AL), SF::mk(BE)}, s(SF::mk(v)) {}
        static constexpr Q3 mk(double v) { return Q3(raw(), v); }
        static constexpr Q3 mk(const SF &v) { return Q3(raw(), v.data); }
        static constexpr Q3 zero() { return mk(0.0); }
        static constexpr Q3 one() { return mk(1.0); }
        static constexpr S1 non_residue = SF::mk(RHO * RHO * RHO);
        constexpr bool is_zero() const { return s.is_zero(); }
        constexpr bool is_one() const { return s.is_one(); }
        constexpr bool operator==(const Q3 &o) const { return s == o.s; }
        constexpr bool operator!=(const Q3 &o) const { return s != o.s; }
        constexpr Q3 operator+(const Q3 &o) const { return mk(s + o.s); }
        constexpr Q3 operator-(const Q3 &o) const { return mk(s - o.s); }
        constexpr Q3 operator*(const Q3 &o) const { return mk(s * o.s); }
        constexpr Q3 operator*(const S1 &o) const { return mk(s * o); }
        constexpr Q3 operator-() const { return mk(-s); }
        constexpr Q3 &operator+=(const Q3 &o) { return *this = *this + o; }
        constexpr Q3 &operator-=(const Q3 &o) { return *this = *this - o; }
        constexpr Q3 &operator*=(const Q3 &o) { return *this = *this * o; }
        constexpr Q3 &operator*=(const S1 &o) { return *this = *this * o; }
        constexpr Q3 doubled() const { return mk(s + s); }
        constexpr Q3 squared() const { return mk(s * s); }
        constexpr Q3 inversed() const { return mk(s.inversed()); }
        constexpr Q3 &double_inplace() { return *this = doubled(); }
        constexpr Q3 &square_inplace() { return *this = squared(); }
        constexpr Q3 &negate_inplace() { return *this = -*this; }
        template<class I> constexpr Q3 pow(I n) const { return mk(s.pow(n)); }
    };
    constexpr Q3 operator*(const S1 &a, const Q3 &b) { return Q3::mk(a * b.s); }
    inline std::ostream &operator<<(std::ostream &o, const Q3 &) { return o; }
    struct field1 { typedef S1 value_type; typedef S1 integral_type; typedef S1 extended_integral_type; static constexpr std::size_t value_bits = 64, modulus_bits = 64, number_bits = 64, arity = 1; };
    struct field2 { typedef Q3 value_type; typedef field1 base_field_type; typedef field1 underlying_field_type; typedef S1 integral_type; static constexpr std::size_t value_bits = 192, modulus_bits = 64, number_bits = 192, arity = 3; };
}
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
    template<std::size_t Version = 183> struct edwards_basic_policy {};
    template<> struct edwards_basic_policy<183> {
        static constexpr std::size_t version = 183;
        typedef eg::field1 g1_field_type; typedef g1_field_type base_field_type; typedef eg::field1 scalar_field_type; typedef eg::field2 g2_field_type; typedef eg::field2 gt_field_type;
        typedef eg::S1 integral_type; typedef eg::S1 extended_integral_type;
        static constexpr eg::S1 a = SF::mk(1.0), d = SF::mk(eg::MD);
        static constexpr std::array<eg::Q3, 3> g2_zero_fill = {eg::Q3::mk(0.0), eg::Q3::mk(0.0), eg::Q3::mk(0.0)};
        static constexpr std::array<eg::Q3, 3> g2_one_fill = {eg::Q3::mk(eg::GX), eg::Q3::mk(eg::GY), eg::Q3::mk(eg::GZ)};
    };
} } } } }
#include <nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp>
typedef nil::crypto3::algebra::curves::detail::element_edwards_g2<183> g2_inverted;
inline eg::Q3 q3in(int k) { return eg::Q3::mk(in(k)); }
inline void setup() { in(900); in(903); }
template<class E> E get(int k) { return E(q3in(k), q3in(k + 1), q3in(k + 2)); }
inline void put(int k, const g2_inverted &e) { vi_out(k + 8, e.is_zero()); out(k, e.X.s); out(k + 1, e.Y.s); out(k + 2, e.Z.s); }
