// Mock pairing-friendly curves over exact symbolic scalars.  Included in place of the library's curve headers, so that the
// library's pairing classes (reached through pairing_policy) run on fields whose elements the analyser keeps exactly.
#pragma once
#include <vf_mp.hpp>
#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>
#include <sf.hpp>
#include <vector>
extern "C" double vd_big(const void *, std::size_t);
namespace vp {
    namespace mp = boost::multiprecision;
    constexpr double U1 = 131072.0, U2 = 17179869184.0;      // the embedding of (a, b[, c]) is a + b*U1 + c*U2
    constexpr double AT = 1009.0, BT = 2003.0, TW = 131072.0;   // a and b of the twist, the twist itself (= the generator U1)
    struct Q2field; struct SFbase;
    // element of the field of G2 (an extension of the base field)
    struct Q2 {
        typedef Q2field field_type; typedef SF underlying_type;
        double data;
        constexpr Q2() : data(0) {}
        struct raw {};
        constexpr Q2(raw, double d) : data(d) {}
        constexpr Q2(const Q2 &o) : data(o.data) {}
        explicit constexpr Q2(const SF &a) : data(a.data) {}
        template<class I, typename std::enable_if<std::is_integral<I>::value, bool>::type = true> constexpr Q2(const I &i) : data((double)i) {}
        constexpr Q2(const SF &a, const SF &b) : data(a.data + U1 * b.data) {}
        constexpr Q2(const SF &a, const SF &b, const SF &c) : data(a.data + U1 * b.data + U2 * c.data) {}
        constexpr Q2 &operator=(const Q2 &o) { data = o.data; return *this; }
        static constexpr Q2 mk(double d) { return Q2(raw(), d); }
        static constexpr Q2 zero() { return mk(0.0); }
        static constexpr Q2 one() { return mk(1.0); }
        constexpr bool is_zero() const { return data == 0.0; }
        constexpr bool is_one() const { return data == 1.0; }
        constexpr bool operator==(const Q2 &o) const { return data == o.data; }
        constexpr bool operator!=(const Q2 &o) const { return !(data == o.data); }
        constexpr Q2 operator+(const Q2 &o) const { return mk(data + o.data); }
        constexpr Q2 operator-(const Q2 &o) const { return mk(data - o.data); }
        constexpr Q2 operator*(const Q2 &o) const { return mk(data * o.data); }
        constexpr Q2 operator*(const SF &o) const { return mk(data * o.data); }
        constexpr Q2 operator-() const { return mk(-data); }
        constexpr Q2 &operator+=(const Q2 &o) { data = data + o.data; return *this; }
        constexpr Q2 &operator-=(const Q2 &o) { data = data - o.data; return *this; }
        constexpr Q2 &operator*=(const Q2 &o) { data = data * o.data; return *this; }
        constexpr Q2 &operator*=(const SF &o) { data = data * o.data; return *this; }
        constexpr Q2 doubled() const { return mk(data + data); }
        constexpr Q2 squared() const { return mk(data * data); }
        constexpr Q2 inversed() const { return mk(1.0 / data); }
        constexpr Q2 &double_inplace() { data = data + data; return *this; }
        constexpr Q2 &square_inplace() { data = data * data; return *this; }
        constexpr Q2 &negate_inplace() { data = -data; return *this; }
        template<class I> constexpr Q2 pow(I n) const { Q2 r = mk(1.0); for (unsigned long i = 0; i < (unsigned long)n; ++i) r = r * *this; return r; }
    };
    constexpr Q2 operator*(const SF &a, const Q2 &b) { return Q2::mk(a.data * b.data); }
    template<class I, typename std::enable_if<std::is_integral<I>::value, bool>::type = true> constexpr Q2 operator*(const I &a, const Q2 &b) { return Q2::mk((double)a * b.data); }
    template<class I, typename std::enable_if<std::is_integral<I>::value, bool>::type = true> constexpr Q2 operator*(const Q2 &b, const I &a) { return Q2::mk(b.data * (double)a); }
    inline std::ostream &operator<<(std::ostream &o, const Q2 &) { return o; }
    struct Q6field;
    struct Q6 {
        typedef Q6field field_type; typedef Q2 underlying_type; std::array<Q2, 3> data;
        constexpr Q6() : data{} {}
        constexpr Q6(const Q2 &a, const Q2 &b, const Q2 &c) : data{{a, b, c}} {}
        static constexpr Q6 zero() { return Q6(); }
        static constexpr Q6 one() { return Q6(Q2::one(), Q2::zero(), Q2::zero()); }
        constexpr Q6 operator+(const Q6 &o) const { return Q6(data[0] + o.data[0], data[1] + o.data[1], data[2] + o.data[2]); }
        constexpr Q6 operator-() const { return Q6(-data[0], -data[1], -data[2]); }
    };
    inline double w(int i) { return vd_in(900 + i); }        // weights of the coordinates of a line; 920: the characteristic
    inline double lgof(const Q6 &a, const Q6 &b) { return w(0) * a.data[0].data + w(1) * a.data[1].data + w(2) * a.data[2].data + w(3) * b.data[0].data + w(4) * b.data[1].data + w(5) * b.data[2].data; }
    inline double lgof(const Q2 &a, const Q2 &b) { return w(0) * a.data + w(1) * b.data; }
    inline int &cycn() { static int n = 0; return n; }
    template<unsigned A, mp::expression_template_option E> double todbl(const mp::number<mp::backends::cpp_int_modular_backend<A>, E> &x) { auto v = x.backend().v; return vd_big(&v, sizeof v); }
    template<class I, typename std::enable_if<std::is_integral<I>::value, bool>::type = true> double todbl(const I &x) { return (double)x; }
    // target-group element, known by its logarithm: a line built from coordinates has the logarithm "weighted sum of them"
    template<unsigned K, class Under> struct GT {
        typedef Under underlying_type; struct field_t; typedef field_t field_type;
        double lg;
        GT() : lg(w(19)) {}                                   // zero has no logarithm
        struct raw {};
        GT(raw, double d) : lg(d) {}
        GT(const GT &o) : lg(o.lg) {}
        GT(const Under &a, const Under &b) : lg(lgof(a, b)) {}
        GT &operator=(const GT &o) { lg = o.lg; return *this; }
        static GT mk(double d) { return GT(raw(), d); }
        static GT zero() { return GT(); }
        static GT one() { return mk(0.0); }
        bool is_one() const { return lg == 0.0; }
        bool is_zero() const { return false; }
        bool operator==(const GT &o) const { return lg == o.lg; }
        bool operator!=(const GT &o) const { return !(lg == o.lg); }
        GT operator*(const GT &o) const { return mk(lg + o.lg); }
        GT &operator*=(const GT &o) { lg = lg + o.lg; return *this; }
        GT operator/(const GT &o) const { return mk(lg - o.lg); }
        GT squared() const { return mk(lg + lg); }
        GT &square_inplace() { lg = lg + lg; return *this; }
        GT inversed() const { return mk(-lg); }
        GT Frobenius_map(std::size_t n) const { double r = lg; for (std::size_t i = 0; i < n; ++i) r = r * vd_in(920); return mk(r); }
        GT unitary_inversed() const { return Frobenius_map(K / 2); }
        GT cyclotomic_squared() const { vd_out(1000 + cycn()++, lg); return mk(lg + lg); }
        template<class N> GT cyclotomic_exp(const N &e) const { vd_out(1000 + cycn()++, lg); return mk(lg * todbl(e)); }
        template<class N> GT pow(const N &e) const { return mk(lg * todbl(e)); }
        GT mul_by_045(const Q2 &l0, const Q2 &lVW, const Q2 &lVV) const { return mk(lg + (w(4) * l0.data + w(0) * lVW.data + w(5) * lVV.data)); }
        GT mul_by_024(const Q2 &l0, const Q2 &lVW, const Q2 &lVV) const { return mk(lg + (w(0) * l0.data + w(4) * lVW.data + w(2) * lVV.data)); }
    };
    struct SFbase {
        typedef SF value_type; typedef mp::number<mp::backends::cpp_int_modular_backend<448>> integral_type; typedef mp::number<mp::backends::cpp_int_modular_backend<4608>> extended_integral_type;
    };
    template<unsigned Bits> struct Base : SFbase { static constexpr std::size_t modulus_bits = Bits, value_bits = Bits, number_bits = Bits, arity = 1; };
    struct Q2field { typedef Q2 value_type; typedef SFbase base_field_type; };
    // affine point
    template<class F> struct Aff { typedef F field_value; F X, Y, Z; Aff() : X(F::zero()), Y(F::one()), Z(F::one()) {} Aff(const F &x, const F &y) : X(x), Y(y), Z(F::one()) {} static Aff zero() { return Aff(); } bool is_zero() const { return X == F::zero() && Y == F::one(); } };
    // point in the curve's own coordinates; W = 1: (X/Z, Y/Z), W = 2: (X/Z^2, Y/Z^3)
    template<class F, int W, class Fld> struct Pt {
        F X, Y, Z; double nz;                                  // nz: non-zero exactly when the point is not the identity
        typedef Fld field_type;
        Pt() : X(F::zero()), Y(F::one()), Z(F::zero()), nz(0) {}
        Pt(const F &x, const F &y, const F &z) : X(x), Y(y), Z(z), nz(1) {}
        static Pt zero() { return Pt(); }
        bool is_zero() const { return nz == 0.0; }
        Aff<F> to_affine() const { if (is_zero()) return Aff<F>::zero(); F i = Z.inversed(); return W == 1 ? Aff<F>(X * i, Y * i) : Aff<F>(X * i * i, Y * i * i * i); }
        static constexpr F mul_by_a(const F &e) { return F(e) * F::mk(TW); }
        static constexpr F twist = F::mk(TW);
    };
    template<class F, int W> Pt<F, W, typename F::field_type> pt(int k) { double x = vd_in(k), y = vd_in(k + 1), z = vd_in(k + 2); return W == 1 ? Pt<F, W, typename F::field_type>(F::mk(x * z), F::mk(y * z), F::mk(z)) : Pt<F, W, typename F::field_type>(F::mk(x * z * z), F::mk(y * z * z * z), F::mk(z)); }
    struct twparams { static constexpr Q2 a = Q2::mk(AT), b = Q2::mk(BT), twist = Q2::mk(TW); };
    template<class F, int W, class Fld> struct Grp { typedef Pt<F, W, Fld> value_type; typedef Fld field_type; typedef twparams params_type; };
    template<class F, class Fld> struct AGrp { typedef Aff<F> value_type; typedef Fld field_type; typedef twparams params_type; };
}
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
    namespace coordinates { struct affine; struct native; }
    namespace vpd {
        template<class C, class F, int W, class Fld> struct sel { typedef vp::Grp<F, W, Fld> type; };
        template<class F, int W, class Fld> struct sel<coordinates::affine, F, W, Fld> { typedef vp::AGrp<F, Fld> type; };
        template<unsigned Bits, int W, unsigned K, class Under> struct curve {
            typedef vp::Base<Bits> base_field_type;
            struct scalar_field_type {};
            template<class C = coordinates::native, class F = int> using g1_type = typename sel<C, SF, W, SFfield>::type;
            template<class C = coordinates::native, class F = int> using g2_type = typename sel<C, vp::Q2, W, vp::Q2field>::type;
            struct gt_type { typedef vp::GT<K, Under> value_type; };
        };
    }
    template<std::size_t V> struct bls12 : vpd::curve<V, 2, 12, vp::Q6> {};
    template<std::size_t V> struct mnt4 : vpd::curve<V, 1, 4, vp::Q2> {};
    template<std::size_t V> struct mnt6 : vpd::curve<V, 1, 6, vp::Q2> {};
    template<std::size_t V> struct edwards : vpd::curve<V, 1, 6, vp::Q2> {};
    template<std::size_t V> struct alt_bn128 : vpd::curve<V, 2, 12, vp::Q6> {};
    struct jubjub; struct babyjubjub;
    typedef bls12<381> bls12_381; typedef mnt4<298> mnt4_298; typedef mnt6<298> mnt6_298; typedef edwards<183> edwards_183;
} } } }
