// Hash-to-curve suites of BLS12-381 over a real implementation of the fields (boost cpp_int), for demonstrations.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <array>
#include <vector>
#include <cstdio>
#include <cstdint>
#define REQ(x) do { if (!(x)) { std::printf("FAIL %s\n", #x); return 1; } } while (0)
typedef boost::multiprecision::cpp_int Z;
struct Big { std::uint64_t l[6] = {}; constexpr Big() {} constexpr Big(std::uint64_t x) : l{x, 0, 0, 0, 0, 0} {} operator Z() const { Z r = 0; for (int i = 5; i >= 0; --i) r = (r << 64) + l[i]; return r; } };
constexpr Big operator""_cppui_modular381(const char *s) {
    Big r; s += 2;
    for (; *s; ++s) { unsigned d = *s <= '9' ? *s - '0' : (*s | 32) - 'a' + 10; for (int i = 5; i > 0; --i) r.l[i] = r.l[i] << 4 | r.l[i - 1] >> 60; r.l[0] = r.l[0] << 4 | d; }
    return r;
}
inline const Z &PP() { static const Z p("0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab"); return p; }
namespace h2 {
    inline Z md(const Z &x) { Z r = x % PP(); return r < 0 ? Z(r + PP()) : r; }
    inline Z pw(const Z &a, const Z &e) { return boost::multiprecision::powm(a, e, PP()); }
    template<unsigned D> struct HF {
        Z a, b;
        HF() : a(0), b(0) {}
        HF(const Big &x) : a(x) {}
        HF(const Z &x) : a(md(x)), b(0) {}
        HF(const Big &x, const Big &y) : a(x), b(y) {}
        HF(const Z &x, const Z &y) : a(md(x)), b(md(y)) {}
        static HF zero() { return HF(); }
        static HF one() { return HF(Z(1)); }
        bool is_zero() const { return a == 0 && b == 0; }
        bool operator==(const HF &o) const { return a == o.a && b == o.b; }
        bool operator!=(const HF &o) const { return !(*this == o); }
        HF operator+(const HF &o) const { return HF(Z(a + o.a), Z(b + o.b)); }
        HF operator-(const HF &o) const { return HF(Z(a - o.a), Z(b - o.b)); }
        HF operator*(const HF &o) const { return HF(Z(a * o.a - b * o.b), Z(a * o.b + b * o.a)); }
        HF operator-() const { return HF(Z(-a), Z(-b)); }
        HF &operator+=(const HF &o) { return *this = *this + o; }
        HF &operator*=(const HF &o) { return *this = *this * o; }
        HF squared() const { return *this * *this; }
        HF doubled() const { return *this + *this; }
        HF pow(Z e) const { HF r = one(), t = *this; for (; e > 0; e >>= 1) { if (e & 1) r = r * t; t = t * t; } return r; }
        HF inversed() const { Z n = pw(md(a * a + b * b), PP() - 2); return HF(Z(a * n), Z(-b * n)); }
        bool is_square() const { return pw(D == 1 ? a : md(a * a + b * b), (PP() - 1) / 2) <= 1; }
        HF sqrt() const {
            if (D == 1) return HF(pw(a, (PP() + 1) / 4));
            HF a1 = pow((PP() - 3) / 4), al = a1 * a1 * *this, x0 = a1 * *this;
            if (al == -one()) return HF(Z(0), Z(1)) * x0;
            return (one() + al).pow((PP() - 1) / 2) * x0;
        }
    };
    template<unsigned D> struct field_of { typedef HF<D> value_type; typedef Big integral_type; };
    template<unsigned D> struct HP {
        typedef HF<D> F; F X, Y, Z;
        HP() : X(F::zero()), Y(F::one()), Z(F::zero()) {}
        HP(const F &x, const F &y, const F &z) : X(x), Y(y), Z(z) {}
        static HP zero() { return HP(); }
        static HP one() { return HP(F(::Z(7)), F(::Z(9)), F::one()); }
        bool is_zero() const { return Z.is_zero(); }
    };
    template<unsigned D> struct group_of { typedef HP<D> value_type; typedef field_of<D> field_type; };
}
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
    struct bls12_381 {
        template<class = void> struct g1_t : h2::group_of<1> {}; template<class = void> struct g2_t : h2::group_of<2> {};
        template<class X = void> using g1_type = g1_t<X>; template<class X = void> using g2_type = g2_t<X>;
    };
    namespace detail {
        template<class G> struct h2c_suite;
        template<unsigned D> struct dsuite { typedef h2::HP<D> group_value_type; typedef h2::HF<D> field_value_type; typedef Big integral_type; };
        template<class X> struct h2c_suite<bls12_381::g1_t<X>> : dsuite<1> { static inline const h2::HF<1> Z{::Z(11)}, Ai{::Z("0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d")}, Bi{::Z("0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0")}; };
        template<class X> struct h2c_suite<bls12_381::g2_t<X>> : dsuite<2> { static inline const h2::HF<2> Z{::Z(-2), ::Z(-1)}, Ai{::Z(0), ::Z(240)}, Bi{::Z(1012), ::Z(1012)}; };
        template<unsigned D> bool sgn0(const h2::HF<D> &x) { return x.a != 0 || D == 1 ? (x.a & 1) != 0 : (x.b & 1) != 0; }
    }
} } } }
#include <nil/crypto3/algebra/curves/detail/h2c/h2c_m2c.hpp>
using namespace nil::crypto3::algebra::curves;
typedef bls12_381::g1_type<> G1; typedef bls12_381::g2_type<> G2; typedef h2::HP<1> P1; typedef h2::HP<2> P2; typedef h2::HF<1> F1; typedef h2::HF<2> F2;
template<class P, class F> bool oncurve(const P &p, const F &A, const F &B) { return p.Y * p.Y == p.X * p.X * p.X + A * p.X + B; }
inline F1 A1() { return detail::h2c_suite<G1>::Ai; } inline F1 B1() { return detail::h2c_suite<G1>::Bi; } inline F2 A2() { return detail::h2c_suite<G2>::Ai; } inline F2 B2() { return detail::h2c_suite<G2>::Bi; }
inline F1 C1() { return F1(Z(4)); } inline F2 C2() { return F2(Z(4), Z(4)); }
