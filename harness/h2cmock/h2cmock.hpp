// Mock suite for hash-to-curve: field elements are exact symbolic scalars; squareness, square root, sign and inverse are
// uninterpreted terms that the analyser interprets per case.
#pragma once
#include <vf_mp.hpp>
#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>
#include <hio.hpp>
#include <vector>
#include <array>
#include <cstdint>
#include <type_traits>
extern "C" { double vd_big(const void *, std::size_t); double vd_leg(double); double vd_root(double); double vd_sign(double); double vd_inv0(double); }
namespace h2 {
    namespace mp = boost::multiprecision;
    typedef mp::number<mp::backends::cpp_int_modular_backend<381>> num;
    template<unsigned D> struct field_of;
    template<unsigned D> struct HF {
        typedef field_of<D> field_type; typedef num integral_type; typedef num data_type;
        double v;
        HF() : v(0) {}
        struct raw {};
        HF(raw, double d) : v(d) {}
        HF(const HF &o) : v(o.v) {}
        template<unsigned A, mp::expression_template_option E> static double cv(const mp::number<mp::backends::cpp_int_modular_backend<A>, E> &x) { auto b = x.backend().v; return vd_big(&b, sizeof b); }
        template<class I, typename std::enable_if<std::is_integral<I>::value, bool>::type = true> static double cv(const I &x) { return (double)x; }
        template<class N, typename std::enable_if<!std::is_same<N, HF>::value, bool>::type = true> HF(const N &a) : v(cv(a)) {}
        template<class N, class M> HF(const N &a, const M &b) : v(cv(a) + vd_in(930) * cv(b)) {}
        HF &operator=(const HF &o) { v = o.v; return *this; }
        static HF mk(double d) { return HF(raw(), d); }
        static HF zero() { return mk(0.0); }
        static HF one() { return mk(1.0); }
        bool is_zero() const { return v == 0.0; }
        bool is_one() const { return v == 1.0; }
        bool operator==(const HF &o) const { return v == o.v; }
        bool operator!=(const HF &o) const { return !(v == o.v); }
        HF operator+(const HF &o) const { return mk(v + o.v); }
        HF operator-(const HF &o) const { return mk(v - o.v); }
        HF operator*(const HF &o) const { return mk(v * o.v); }
        HF operator/(const HF &o) const { return mk(v / o.v); }
        HF operator-() const { return mk(-v); }
        HF &operator+=(const HF &o) { v = v + o.v; return *this; }
        HF &operator-=(const HF &o) { v = v - o.v; return *this; }
        HF &operator*=(const HF &o) { v = v * o.v; return *this; }
        HF doubled() const { return mk(v + v); }
        HF squared() const { return mk(v * v); }
        HF &double_inplace() { v = v + v; return *this; }
        HF &square_inplace() { v = v * v; return *this; }
        HF &negate_inplace() { v = -v; return *this; }
        HF inversed() const { return mk(vd_inv0(v)); }
        bool is_square() const { return vd_leg(v) == 1.0; }
        HF sqrt() const { return mk(vd_root(v)); }
        template<class I> HF pow(I n) const { HF r = one(); for (std::uint64_t i = 0; i < (std::uint64_t)n; ++i) r = r * *this; return r; }
    };
    template<unsigned D> struct sgn { double s; bool operator==(const sgn &o) const { return s == o.s; } bool operator!=(const sgn &o) const { return !(s == o.s); } explicit operator bool() const { return s == 1.0; } };
    template<unsigned D> struct field_of { typedef HF<D> value_type; typedef num integral_type; static constexpr std::size_t arity = D; };
    template<unsigned D> struct group_of;
    template<unsigned D> struct HP {
        typedef HF<D> F; typedef F field_value_type; typedef F field_value; typedef group_of<D> group_type;
        F X, Y, Z;
        HP() : X(F::zero()), Y(F::one()), Z(F::zero()) {}
        HP(const F &x, const F &y) : X(x), Y(y), Z(F::one()) {}
        HP(const F &x, const F &y, const F &z) : X(x), Y(y), Z(z) {}
        static HP zero() { return HP(); }
        static HP one() { return HP(F::mk(vd_in(40)), F::mk(vd_in(41)), F::one()); }
        bool is_zero() const { return Z.is_zero(); }
    };
    template<unsigned D> struct group_of { typedef HP<D> value_type; typedef field_of<D> field_type; typedef num integral_type; };
    template<int N, unsigned D> struct K {                  // a suite constant
        operator HF<D>() const { return HF<D>::mk(vd_in(N)); }
        HF<D> f() const { return HF<D>::mk(vd_in(N)); }
        HF<D> operator-() const { return -f(); }
        HF<D> operator+(const HF<D> &o) const { return f() + o; }
        HF<D> operator-(const HF<D> &o) const { return f() - o; }
        HF<D> operator*(const HF<D> &o) const { return f() * o; }
        template<int M> HF<D> operator*(const K<M, D> &o) const { return f() * o.f(); }
        template<int M> HF<D> operator+(const K<M, D> &o) const { return f() + o.f(); }
        template<int M> HF<D> operator-(const K<M, D> &o) const { return f() - o.f(); }
        template<class I> HF<D> pow(I n) const { return f().pow(n); }
        HF<D> squared() const { return f().squared(); }
        HF<D> doubled() const { return f().doubled(); }
        HF<D> inversed() const { return f().inversed(); }
        bool is_zero() const { return f().is_zero(); }
    };
    template<int N, unsigned D> HF<D> operator*(const HF<D> &a, const K<N, D> &b) { return a * b.f(); }
    template<int N, unsigned D> HF<D> operator+(const HF<D> &a, const K<N, D> &b) { return a + b.f(); }
    template<int N, unsigned D> HF<D> operator-(const HF<D> &a, const K<N, D> &b) { return a - b.f(); }
    template<class T> struct dim; template<unsigned D> struct dim<HP<D>> { static const unsigned v = D; };
    template<class T> struct dim_of;
}
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
    struct bls12_381 {
        template<class = void> struct g1_t : h2::group_of<1> {};
        template<class = void> struct g2_t : h2::group_of<2> {};
        template<class X = void> using g1_type = g1_t<X>;
        template<class X = void> using g2_type = g2_t<X>;
    };
    namespace detail {
        using namespace boost::multiprecision;
        template<unsigned D> struct mock_suite {
            typedef h2::group_of<D> group_type; typedef h2::HP<D> group_value_type; typedef h2::field_of<D> field_type; typedef h2::HF<D> field_value_type; typedef h2::num integral_type;
            static constexpr h2::K<30, D> Z{}; static constexpr h2::K<31, D> Ai{}; static constexpr h2::K<32, D> Bi{};
        };
        template<class G> struct h2c_suite;
        template<class X> struct h2c_suite<bls12_381::g1_t<X>> : mock_suite<1> {};
        template<class X> struct h2c_suite<bls12_381::g2_t<X>> : mock_suite<2> {};
        template<unsigned D> h2::sgn<D> sgn0(const h2::HF<D> &x) { return h2::sgn<D>{vd_sign(x.v)}; }
        template<int N, unsigned D> h2::sgn<D> sgn0(const h2::K<N, D> &x) { return h2::sgn<D>{vd_sign(x.f().v)}; }
    }
} } } }
