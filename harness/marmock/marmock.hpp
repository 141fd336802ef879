// Mock curve for the serialisers: numbers, bytes and field elements are symbolic; how a number splits into bytes, reduction,
// squareness and square roots are uninterpreted terms that the analyser evaluates against arithmetic modulo the real primes.
#pragma once
#include <hio.hpp>
#include <cstdint>
#include <array>
#include <vector>
#include <list>
#include <deque>
#include <algorithm>
#include <iterator>
#include <utility>
#include <type_traits>
#include <boost/assert.hpp>
#include <boost/range/concepts.hpp>
#include <nil/crypto3/algebra/type_traits.hpp>
extern "C" { unsigned char vb_in(int); double vb_dbl(unsigned char); unsigned char vb_byte(double, int); double vd_more(double, int); double vd_red(double, int); double vd_leg(double); double vd_sqrt(double); double vd_leg2(double, double); double vd_sqrt2(double, double, int); double vd_idiv(double, double); double vd_rem(double, double); }
namespace mm {
    struct Num {
        double v;
        constexpr Num() : v(0) {}
        template<class I, typename std::enable_if<std::is_integral<I>::value, bool>::type = true> constexpr Num(I i) : v((double)i) {}
        struct raw {};
        constexpr Num(raw, double d) : v(d) {}
        constexpr Num(const Num &o) : v(o.v) {}
        constexpr Num &operator=(const Num &o) { v = o.v; return *this; }
        static constexpr Num mk(double d) { return Num(raw(), d); }
        bool is_zero() const { return v == 0.0; }
        template<class T> T convert_to() const { return T(*this); }
        friend Num operator+(const Num &a, const Num &b) { return mk(a.v + b.v); }
        friend Num operator-(const Num &a, const Num &b) { return mk(a.v - b.v); }
        friend Num operator*(const Num &a, const Num &b) { return mk(a.v * b.v); }
        friend Num operator/(const Num &a, const Num &b) { return mk(vd_idiv(a.v, b.v)); }
        friend Num operator%(const Num &a, const Num &b) { return mk(vd_rem(a.v, b.v)); }
        friend Num operator>>(const Num &a, unsigned k) { double d = 1; for (unsigned i = 0; i < k; ++i) d = d + d; return mk(vd_idiv(a.v, d)); }
        friend Num operator<<(const Num &a, unsigned k) { double d = 1; for (unsigned i = 0; i < k; ++i) d = d + d; return mk(a.v * d); }
        friend bool operator==(const Num &a, const Num &b) { return a.v == b.v; }
        friend bool operator!=(const Num &a, const Num &b) { return !(a.v == b.v); }
        friend bool operator<(const Num &a, const Num &b) { return a.v < b.v; }
        friend bool operator>(const Num &a, const Num &b) { return b.v < a.v; }
        friend bool operator<=(const Num &a, const Num &b) { return !(b.v < a.v); }
        friend bool operator>=(const Num &a, const Num &b) { return !(a.v < b.v); }
    };
    template<int M> struct Mod { operator Num() const { return Num::mk(vd_in(900 + M)); } };
    template<int M> Num operator-(const Mod<M> &a, const Num &b) { return Num(a) - b; }
    template<int M> Num operator+(const Mod<M> &a, const Num &b) { return Num(a) + b; }
    template<int M> Num operator/(const Mod<M> &a, const Num &b) { return Num(a) / b; }
    template<int M> Num operator>>(const Mod<M> &a, unsigned b) { return Num(a) >> b; }
    template<int M> struct Dat {
        double v;
        template<class T> T convert_to() const { return T(Num::mk(vd_red(v, M))); }
        explicit operator Num() const { return Num::mk(vd_red(v, M)); }
        bool is_zero() const { return vd_red(v, M) == 0.0; }
        friend bool operator==(const Dat &a, const Dat &b) { return vd_red(a.v, M) == vd_red(b.v, M); }
        friend bool operator<(const Dat &a, const Dat &b) { return vd_red(a.v, M) < vd_red(b.v, M); }
    };
    template<int M> struct fieldof;
    template<int M> struct FE {
        typedef fieldof<M> field_type; typedef Num integral_type; typedef Num modular_type; typedef Dat<M> data_type;
        static constexpr Mod<M> modulus{};
        Dat<M> data;
        FE() : data{0.0} {}
        template<class I, typename std::enable_if<std::is_integral<I>::value, bool>::type = true> FE(I i) : data{(double)i} {}
        FE(const Num &n) : data{n.v} {}
        FE(const FE &o) : data(o.data) {}
        FE &operator=(const FE &o) { data = o.data; return *this; }
        static FE mk(double d) { return FE(Num::mk(d)); }
        static FE zero() { return FE(); }
        static FE one() { return mk(1.0); }
        double red() const { return vd_red(data.v, M); }
        bool is_zero() const { return red() == 0.0; }
        bool is_one() const { return red() == 1.0; }
        friend bool operator==(const FE &a, const FE &b) { return a.red() == b.red(); }
        friend bool operator!=(const FE &a, const FE &b) { return !(a.red() == b.red()); }
        friend bool operator<(const FE &a, const FE &b) { return a.red() < b.red(); }
        friend bool operator>(const FE &a, const FE &b) { return b.red() < a.red(); }
        friend bool operator<=(const FE &a, const FE &b) { return !(b.red() < a.red()); }
        friend bool operator>=(const FE &a, const FE &b) { return !(a.red() < b.red()); }
        friend FE operator+(const FE &a, const FE &b) { return mk(a.data.v + b.data.v); }
        friend FE operator-(const FE &a, const FE &b) { return mk(a.data.v - b.data.v); }
        friend FE operator*(const FE &a, const FE &b) { return mk(a.data.v * b.data.v); }
        FE &operator+=(const FE &o) { return *this = *this + o; }
        FE &operator*=(const FE &o) { return *this = *this * o; }
        FE operator-() const { return mk(-data.v); }
        FE squared() const { return *this * *this; }
        FE doubled() const { return *this + *this; }
        template<class I> FE pow(I n) const { FE r = one(); for (unsigned long i = 0; i < (unsigned long)n; ++i) r = r * *this; return r; }
        bool is_square() const { return vd_leg(data.v) == 1.0; }
        FE sqrt() const { return mk(vd_sqrt(data.v)); }
    };
    template<int M> struct fieldof {
        typedef FE<M> value_type; typedef Num integral_type; typedef Num modular_type;
        static constexpr Mod<M> modulus{};
        static constexpr std::size_t modulus_bits = M == 1 ? 381 : M == 2 ? 255 : 256, number_bits = modulus_bits, value_bits = modulus_bits, arity = 1;
    };
    typedef FE<1> E1; typedef fieldof<1> fp; typedef fieldof<2> fr; typedef fieldof<3> fp256;
    struct fp2;
    struct E2 {
        typedef fp2 field_type; typedef E1 underlying_type; typedef std::array<E1, 2> data_type; typedef Num integral_type;
        data_type data;
        E2() : data{} {}
        E2(const data_type &d) : data(d) {}
        E2(const E1 &a, const E1 &b) : data{{a, b}} {}
        explicit E2(const E1 &a) : data{{a, E1()}} {}
        static E2 zero() { return E2(); }
        static E2 one() { return E2(E1::one(), E1()); }
        bool is_zero() const { return data[0].is_zero() && data[1].is_zero(); }
        bool operator==(const E2 &o) const { return data[0] == o.data[0] && data[1] == o.data[1]; }
        bool operator!=(const E2 &o) const { return !(*this == o); }
        E2 operator+(const E2 &o) const { return E2(data[0] + o.data[0], data[1] + o.data[1]); }
        E2 operator-(const E2 &o) const { return E2(data[0] - o.data[0], data[1] - o.data[1]); }
        E2 operator*(const E2 &o) const { return E2(data[0] * o.data[0] - data[1] * o.data[1], data[0] * o.data[1] + data[1] * o.data[0]); }
        E2 operator-() const { return E2(-data[0], -data[1]); }
        E2 &operator+=(const E2 &o) { return *this = *this + o; }
        E2 &operator*=(const E2 &o) { return *this = *this * o; }
        E2 squared() const { return *this * *this; }
        E2 doubled() const { return *this + *this; }
        template<class I> E2 pow(I n) const { E2 r = one(); for (unsigned long i = 0; i < (unsigned long)n; ++i) r = r * *this; return r; }
        bool is_square() const { return vd_leg2(data[0].data.v, data[1].data.v) == 1.0; }
        E2 sqrt() const { return E2(E1::mk(vd_sqrt2(data[0].data.v, data[1].data.v, 0)), E1::mk(vd_sqrt2(data[0].data.v, data[1].data.v, 1))); }
    };
    struct ext_policy {};
    struct fp2 { typedef fp base_field_type; typedef fp underlying_field_type; typedef E2 value_type; typedef Num integral_type; typedef Num modular_type; typedef ext_policy extension_policy; static constexpr Mod<1> modulus{}; static constexpr std::size_t modulus_bits = 381, number_bits = 381, value_bits = 762, arity = 2; };
    template<class U, unsigned N> struct ext {
        struct value_type {
            typedef ext field_type; typedef typename U::value_type underlying_type; typedef std::array<underlying_type, N> data_type; data_type data;
            value_type() : data{} {}
            value_type(const data_type &d) : data(d) {}
            value_type(const value_type &) = default;
            value_type &operator=(const value_type &o) { data = o.data; return *this; }
        };
        typedef typename U::base_field_type base_field_type; typedef U underlying_field_type; typedef Num integral_type; typedef Num modular_type; typedef ext_policy extension_policy;
        static constexpr Mod<1> modulus{}; static constexpr std::size_t arity = N * U::arity, modulus_bits = 381, number_bits = 381, value_bits = 381 * arity;
    };
    typedef ext<fp2, 3> fp6; typedef ext<fp6, 2> fp12;
    inline E1 aff(int k, const E1 *) { return E1::mk(vd_in(10 + k)); }
    inline E2 aff(int k, const E2 *) { return E2(E1::mk(vd_in(10 + 2 * k)), E1::mk(vd_in(11 + 2 * k))); }
    inline E1 coef(const E1 *) { return E1(4u); }
    inline E2 coef(const E2 *) { return E2(E1(4u), E1(4u)); }
    template<class F> struct AF { typedef F field_value_type; typedef typename F::field_type field_type; F X, Y; };
    template<class F> struct PT {
        typedef typename F::field_type field_type; typedef F field_value_type;
        F X, Y, Z; double nz;
        PT() : X(F::zero()), Y(F::one()), Z(F::zero()), nz(0) {}
        PT(const F &x, const F &y, const F &z) : X(x), Y(y), Z(z), nz(1) {}
        PT(const F &x, const F &y) : X(x), Y(y), Z(F::one()), nz(1) {}
        static PT zero() { return PT(); }
        static PT one() { F g(aff(20, (F *)0)); return PT(g, g, F::one()); }
        bool is_zero() const { return nz == 0.0; }
        bool is_well_formed() const { return is_zero() || Y * Y == X * X * X + coef((F *)0) * Z * Z * Z; }
        AF<F> to_affine() const { return AF<F>{aff(0, (F *)0), aff(1, (F *)0)}; }
    };
}
namespace boost { namespace multiprecision {
    using mm::Num;
    // most significant octet first unless msv is false; no more octets than the number has
    template<class It> It export_bits(const mm::Num &x, It out, unsigned chunk, bool msv = true) {
        (void)chunk;
        if (msv) { int n = 1; while (n < 64 && vd_more(x.v, n) != 0.0) ++n; for (int i = n - 1; i >= 0; --i) { *out = vb_byte(x.v, i); ++out; } return out; }
        for (int i = 0; i < 64; ++i) { if (i && !(vd_more(x.v, i) != 0.0)) break; *out = vb_byte(x.v, i); ++out; }
        return out;
    }
    template<class It> mm::Num &import_bits(mm::Num &x, It first, It last, unsigned chunk = 8, bool msv = true) {
        (void)chunk; double v = 0, w = 1;
        for (; first != last; ++first) { if (msv) v = v * 256.0 + vb_dbl(*first); else { v = v + w * vb_dbl(*first); w = w * 256.0; } }
        x.v = v; return x;
    }
} }
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
    struct coordinates { struct affine; struct jac; };
    template<std::size_t B> struct bls12;
    template<class C, class F> struct grp { typedef bls12<381> curve_type; typedef typename F::field_type field_type; typedef mm::PT<F> value_type; };
    template<class F> struct grp<coordinates::affine, F> { typedef bls12<381> curve_type; typedef typename F::field_type field_type; typedef mm::AF<F> value_type; };
    template<> struct bls12<381> {
        typedef mm::fp base_field_type; typedef mm::fr scalar_field_type; typedef mm::fp12 gt_type;
        template<class C = coordinates::jac> using g1_type = grp<C, mm::E1>;
        template<class C = coordinates::jac> using g2_type = grp<C, mm::E2>;
    };
    typedef bls12<381> bls12_381;
} } } }
