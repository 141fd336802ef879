// BLS12-381 over a real implementation of the fields (boost cpp_int), for demonstrations of the serialisers.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/assert.hpp>
#include <boost/range/concepts.hpp>
#include <algorithm>
#include <array>
#include <vector>
#include <cstdio>
#include <cstdint>
#include <nil/crypto3/algebra/type_traits.hpp>
namespace boost { inline void assertion_failed(char const *, char const *, char const *, long) { throw 1; } inline void assertion_failed_msg(char const *, char const *, char const *, char const *, long) { throw 1; } }
#define REQ(x) do { bool ok_ = false; try { ok_ = (x); } catch (int) {} if (!ok_) { std::printf("FAIL %s\n", #x); return 1; } } while (0)
#define REJECTS(x) do { bool r_ = false; try { (void)(x); } catch (int) { r_ = true; } if (!r_) { std::printf("FAIL accepted: %s\n", #x); return 1; } } while (0)
typedef boost::multiprecision::cpp_int Z;
namespace mm {
    inline const Z &prime(int m) { static const Z p("0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab"), r("0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"); return m == 1 ? p : r; }
    template<int M> struct fieldof;
    template<int M> struct FE {
        typedef fieldof<M> field_type; typedef Z integral_type; typedef Z modular_type; typedef Z data_type;
        static inline const Z modulus = prime(M);
        Z data;
        FE() : data(0) {}
        FE(int i) : data(i) {} FE(unsigned i) : data(i) {}
        FE(const Z &n) : data(n % prime(M)) { if (data < 0) data += prime(M); }
        static FE zero() { return FE(); } static FE one() { return FE(1); }
        bool is_zero() const { return data == 0; }
        friend bool operator==(const FE &a, const FE &b) { return a.data == b.data; } friend bool operator!=(const FE &a, const FE &b) { return a.data != b.data; }
        friend bool operator<(const FE &a, const FE &b) { return a.data < b.data; } friend bool operator>(const FE &a, const FE &b) { return a.data > b.data; }
        friend bool operator<=(const FE &a, const FE &b) { return a.data <= b.data; } friend bool operator>=(const FE &a, const FE &b) { return a.data >= b.data; }
        friend FE operator+(const FE &a, const FE &b) { return FE(Z(a.data + b.data)); } friend FE operator-(const FE &a, const FE &b) { return FE(Z(a.data - b.data)); } friend FE operator*(const FE &a, const FE &b) { return FE(Z(a.data * b.data)); }
        FE operator-() const { return FE(Z(-data)); }
        FE pow(Z e) const { return FE(Z(boost::multiprecision::powm(data, e, prime(M)))); }
        bool is_square() const { return pow((prime(M) - 1) / 2).data <= 1; }
        FE sqrt() const { return pow((prime(M) + 1) / 4); }
    };
    template<int M> struct fieldof { typedef FE<M> value_type; typedef Z integral_type; typedef Z modular_type; static inline const Z modulus = prime(M); static constexpr std::size_t modulus_bits = M == 1 ? 381 : 255, number_bits = modulus_bits, value_bits = modulus_bits, arity = 1; };
    typedef FE<1> E1; typedef fieldof<1> fp; typedef fieldof<2> fr;
    struct fp2;
    struct E2 {
        typedef fp2 field_type; typedef E1 underlying_type; typedef std::array<E1, 2> data_type; typedef Z integral_type; data_type data;
        E2() {} E2(const data_type &d) : data(d) {} E2(const E1 &a, const E1 &b) : data{{a, b}} {}
        static E2 zero() { return E2(); } static E2 one() { return E2(E1(1), E1()); }
        bool is_zero() const { return data[0].is_zero() && data[1].is_zero(); }
        bool operator==(const E2 &o) const { return data == o.data; } bool operator!=(const E2 &o) const { return !(data == o.data); }
        E2 operator+(const E2 &o) const { return E2(data[0] + o.data[0], data[1] + o.data[1]); }
        E2 operator*(const E2 &o) const { return E2(data[0] * o.data[0] - data[1] * o.data[1], data[0] * o.data[1] + data[1] * o.data[0]); }
        E2 operator-() const { return E2(-data[0], -data[1]); }
        E2 pow(Z e) const { E2 r = one(), t = *this; for (; e > 0; e >>= 1) { if (e & 1) r = r * t; t = t * t; } return r; }
        bool is_square() const { return (data[0] * data[0] + data[1] * data[1]).is_square(); }
        E2 sqrt() const { E2 a1 = pow((prime(1) - 3) / 4), al = a1 * a1 * *this, x0 = a1 * *this; if (al == -one()) return E2(E1(), E1(1)) * x0; return (one() + al).pow((prime(1) - 1) / 2) * x0; }
    };
    struct ext_policy {};
    struct fp2 { typedef fp base_field_type; typedef fp underlying_field_type; typedef E2 value_type; typedef Z integral_type; typedef Z modular_type; typedef ext_policy extension_policy; static constexpr std::size_t modulus_bits = 381, number_bits = 381, value_bits = 762, arity = 2; };
    template<class U, unsigned N> struct ext {
        struct value_type { typedef ext field_type; typedef typename U::value_type underlying_type; typedef std::array<underlying_type, N> data_type; data_type data; value_type() {} value_type(const data_type &d) : data(d) {} bool operator==(const value_type &o) const { return data == o.data; } };
        typedef typename U::base_field_type base_field_type; typedef U underlying_field_type; typedef Z integral_type; typedef Z modular_type; typedef ext_policy extension_policy; static constexpr std::size_t arity = N * U::arity, modulus_bits = 381, number_bits = 381, value_bits = 381 * arity;
    };
    typedef ext<fp2, 3> fp6; typedef ext<fp6, 2> fp12;
    inline E1 four(const E1 *) { return E1(4); } inline E2 four(const E2 *) { return E2(E1(4), E1(4)); }
    template<class F> struct AF { typedef F field_value_type; typedef typename F::field_type field_type; F X, Y; };
    template<class F> struct PT {
        typedef typename F::field_type field_type; typedef F field_value_type; F X, Y, Z;
        PT() : X(F::zero()), Y(F::one()), Z(F::zero()) {} PT(const F &x, const F &y, const F &z) : X(x), Y(y), Z(z) {}
        static PT zero() { return PT(); }
        bool is_zero() const { return Z.is_zero(); }
        bool is_well_formed() const { return is_zero() || Y * Y == X * X * X + four((F *)0); }
        AF<F> to_affine() const { return AF<F>{X, Y}; }     // points of the demonstrations have Z = 1
        bool operator==(const PT &o) const { return is_zero() ? o.is_zero() : !o.is_zero() && X == o.X && Y == o.Y; }
    };
}
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
    struct coordinates { struct affine; struct jac; };
    template<std::size_t B> struct bls12;
    template<class C, class F> struct grp { typedef bls12<381> curve_type; typedef typename F::field_type field_type; typedef mm::PT<F> value_type; };
    template<class F> struct grp<coordinates::affine, F> { typedef bls12<381> curve_type; typedef typename F::field_type field_type; typedef mm::AF<F> value_type; };
    template<> struct bls12<381> { typedef mm::fp base_field_type; typedef mm::fr scalar_field_type; typedef mm::fp12 gt_type; template<class C = coordinates::jac> using g1_type = grp<C, mm::E1>; template<class C = coordinates::jac> using g2_type = grp<C, mm::E2>; };
    typedef bls12<381> bls12_381;
} } } }
#include <nil/crypto3/algebra/curves/detail/marshalling.hpp>
#include <nil/crypto3/algebra/marshalling.hpp>
using namespace nil::marshalling; using namespace nil::crypto3; using namespace mm;
typedef curve_element_serializer<algebra::curves::bls12_381> S; typedef PT<E1> P1; typedef PT<E2> P2; typedef std::vector<std::uint8_t> V; typedef bincode::curve<algebra::curves::bls12<381>> BC;
inline P1 pt1(unsigned x, bool neg = false) { for (;; ++x) { E1 g = E1(x).pow(3) + E1(4); if (g.is_square()) { E1 y = g.sqrt(); return P1(E1(x), neg ? -y : y, E1(1)); } } }
inline P2 pt2(unsigned x, unsigned i, bool neg = false) { for (;; ++x) { E2 X = E2(E1(x), E1(i)), g = X * X * X + E2(E1(4), E1(4)); if (g.is_square()) { E2 y = g.sqrt(); return P2(X, neg ? -y : y, E2::one()); } } }
template<class A> V vec(const A &a) { return V(a.begin(), a.end()); }
