// Interface model of the (absent) multiprecision dependency, used only by the static analyser.
// Constant expressions are evaluated with _BitInt; everything else becomes calls to the opaque primitives vf_*,
// which the abstract interpreter gives their mathematical meaning (exact integers / arithmetic mod p).
#ifndef VF_MP_HPP
#define VF_MP_HPP
#include <cstddef>
#include <cstdint>
#include <cassert>
#include <stdexcept>
#include <type_traits>
#include <limits>
#include <iostream>
#include <vector>
#include <array>
#include <string>
#include <iterator>
#include <functional>
#include <initializer_list>
#include <boost/config.hpp>
#include <boost/assert.hpp>
#include <boost/functional/hash.hpp>

extern "C" {
// modular primitives: result, operands, modulus (all little-endian words of `bytes` bytes)
void vf_add(void *r, const void *a, const void *b, const void *m, std::size_t bytes);
void vf_sub(void *r, const void *a, const void *b, const void *m, std::size_t bytes);
void vf_mul(void *r, const void *a, const void *b, const void *m, std::size_t bytes);
void vf_neg(void *r, const void *a, const void *m, std::size_t bytes);
void vf_inv(void *r, const void *a, const void *m, std::size_t bytes);
void vf_sqrt(void *r, const void *a, const void *m, std::size_t bytes);
void vf_pow(void *r, const void *a, const void *m, std::size_t bytes, const void *e, std::size_t ebytes);
bool vf_eq(const void *a, const void *b, const void *m, std::size_t bytes);
bool vf_lt(const void *a, const void *b, const void *m, std::size_t bytes);
void vf_redc(void *r, const void *a, std::size_t abytes, const void *m, std::size_t bytes);   // integer -> residue
void vf_lift(void *r, std::size_t rbytes, const void *a, const void *m, std::size_t bytes);   // residue -> integer
std::size_t vf_hash(const void *a, std::size_t bytes);
// integer primitives
void vi_import(void *r, std::size_t rbytes, const unsigned char *first, std::ptrdiff_t n, int step, std::size_t chunk, int msb_first);
void vi_divmod(void *q, void *r, const void *a, const void *b, std::size_t bytes);
bool vi_prime(const void *a, std::size_t bytes, unsigned trials);
void vf_print(const void *a, std::size_t bytes);
}

namespace boost { namespace multiprecision {
    enum expression_template_option { et_off = 0, et_on = 1 };
    template<class Backend, expression_template_option ET = et_off> class number;
    typedef unsigned __int128 vf_u128;

    namespace backends {
        template<unsigned Bits> struct cpp_int_modular_backend {
            static constexpr unsigned W = ((Bits + 63) / 64) * 64;
            typedef unsigned _BitInt(Bits <= 64 ? 64 : ((Bits + 127) / 128) * 128) T;
            static constexpr unsigned bits = Bits;
            T v;
            constexpr cpp_int_modular_backend() : v(0) {}
            template<class I, typename std::enable_if<std::is_integral<I>::value, int>::type = 0>
            constexpr cpp_int_modular_backend(I i) : v((T)(i)) {}
            struct raw {};
            constexpr cpp_int_modular_backend(raw, T x) : v(x) {}
            template<unsigned B2> constexpr cpp_int_modular_backend(const cpp_int_modular_backend<B2> &o) : v((T)o.v) {}
        };

        template<class B> struct modular_params {
            B m;
            constexpr modular_params() : m() {}
            constexpr modular_params(const B &b) : m(b) {}
            template<unsigned B2> constexpr modular_params(const cpp_int_modular_backend<B2> &b) : m(b) {}
            template<class BB, expression_template_option E> constexpr modular_params(const number<BB, E> &n) : m(n.backend()) {}
            constexpr number<B> get_mod() const;
        };
        template<class B, const modular_params<B> &P> struct modular_params_ct {
            static constexpr const modular_params<B> &params() { return P; }
            typedef B backend;
        };

        template<class B> class modular_params_rt;     // run-time moduli: named by the library, not modelled
        template<class B, class Params> struct modular_adaptor {
            typedef B base;
            typedef Params storage;
            typedef typename B::T T;
            T v;                    // the residue, in [0, p)
            static constexpr T mod() { return Params::params().m.v; }
            static constexpr const void *modp() { return &Params::params().m.v; }
            template<class X> static constexpr T red(X x) {
                typedef unsigned _BitInt(sizeof(X) * 8) U;
                if (__builtin_is_constant_evaluated()) {
                    if constexpr (sizeof(X) > sizeof(T)) return (T)(x % (X)mod());
                    else return ((T)x) % mod();
                }
                T r; vf_redc(&r, &x, sizeof(X), modp(), sizeof(T)); return r;
            }
            constexpr modular_adaptor() : v(0) {}
            struct raw {};
            constexpr modular_adaptor(raw, T x) : v(x) {}
            constexpr modular_adaptor(const modular_adaptor &) = default;
            constexpr modular_adaptor &operator=(const modular_adaptor &) = default;
            template<class I, typename std::enable_if<std::is_integral<I>::value, int>::type = 0>
            constexpr modular_adaptor(I i) : v(fromint(i)) {}
            template<class I, typename std::enable_if<std::is_integral<I>::value, int>::type = 0>
            constexpr modular_adaptor(I i, const modular_params<B> &) : v(fromint(i)) {}
            template<unsigned B2> constexpr modular_adaptor(const cpp_int_modular_backend<B2> &o) : v(red(o.v)) {}
            template<unsigned B2> constexpr modular_adaptor(const cpp_int_modular_backend<B2> &o, const modular_params<B> &) : v(red(o.v)) {}
            constexpr modular_adaptor(const modular_adaptor &o, const modular_params<B> &) : v(o.v) {}
            template<class I> static constexpr T fromint(I i) {
                if constexpr (std::is_signed<I>::value) {
                    if (i < 0) return neg(red((unsigned _BitInt(64))(-(long long)i)));
                }
                return red((unsigned _BitInt(64))i);
            }
            static constexpr T add(T a, T b) {
                if (__builtin_is_constant_evaluated()) { typedef unsigned _BitInt(sizeof(T) * 8 + 64) U; return (T)(((U)a + (U)b) % (U)mod()); }
                T r; vf_add(&r, &a, &b, modp(), sizeof(T)); return r;
            }
            static constexpr T sub(T a, T b) {
                if (__builtin_is_constant_evaluated()) return add(a, neg(b));
                T r; vf_sub(&r, &a, &b, modp(), sizeof(T)); return r;
            }
            static constexpr T neg(T a) {
                if (__builtin_is_constant_evaluated()) return a == 0 ? (T)0 : (T)(mod() - a);
                T r; vf_neg(&r, &a, modp(), sizeof(T)); return r;
            }
            static constexpr T mul(T a, T b) {
                if (__builtin_is_constant_evaluated()) { typedef unsigned _BitInt(sizeof(T) * 16) U; return (T)(((U)a * (U)b) % (U)mod()); }
                T r; vf_mul(&r, &a, &b, modp(), sizeof(T)); return r;
            }
            template<class E> static constexpr T powc(T a, E e) {
                T r = 1;
                while (e != 0) { if (e & 1) r = mul(r, a); a = mul(a, a); e >>= 1; }
                return r;
            }
            static constexpr T inv(T a) {
                if (__builtin_is_constant_evaluated()) return powc(a, (T)(mod() - 2));
                T r; vf_inv(&r, &a, modp(), sizeof(T)); return r;
            }
            static constexpr bool eq(T a, T b) {
                if (__builtin_is_constant_evaluated()) return a == b;
                return vf_eq(&a, &b, modp(), sizeof(T));
            }
            static constexpr bool lt(T a, T b) {
                if (__builtin_is_constant_evaluated()) return a < b;
                return vf_lt(&a, &b, modp(), sizeof(T));
            }
        };
    }

    template<class T> struct is_number : std::false_type {};
    template<class B, expression_template_option E> struct is_number<number<B, E>> : std::true_type {};
    template<class X> struct vf_is_int { static constexpr bool value = std::is_integral<X>::value || std::is_enum<X>::value; };

    // ---------------------------------------------------------------- plain integers
    template<unsigned Bits, expression_template_option ET>
    class number<backends::cpp_int_modular_backend<Bits>, ET> {
    public:
        typedef backends::cpp_int_modular_backend<Bits> backend_type;
        typedef typename backend_type::T T;
        typedef number value_type;
        backend_type m;
        constexpr number() : m() {}
        constexpr number(const number &) = default;
        constexpr number &operator=(const number &) = default;
        constexpr number(const backend_type &b) : m(b) {}
        template<class I, typename std::enable_if<vf_is_int<I>::value, int>::type = 0> constexpr number(I i) : m(typename backend_type::raw(), (T)i) {}
        template<unsigned B2, expression_template_option E2> constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o) : m(typename backend_type::raw(), (T)o.m.v) {}
        template<class B, class P, expression_template_option E2> explicit constexpr number(const number<backends::modular_adaptor<B, P>, E2> &o) : m(o.template convert_to<number>().m) {}
        static constexpr number mk(T v) { return number(backend_type(typename backend_type::raw(), v)); }
        constexpr const backend_type &backend() const { return m; }
        constexpr backend_type &backend() { return m; }
        constexpr bool is_zero() const { return m.v == 0; }
        constexpr int sign() const { return m.v != 0; }
        template<class I, typename std::enable_if<std::is_integral<I>::value, int>::type = 0> explicit constexpr operator I() const { return (I)m.v; }
        template<class X> constexpr X convert_to() const { if constexpr (std::is_integral<X>::value) return (X)m.v; else return X(*this); }
        constexpr int compare(const number &o) const { return m.v < o.m.v ? -1 : m.v > o.m.v; }
        std::string str(int = 0, int = 0) const { return std::string(); }
        constexpr number &operator+=(const number &o) { m.v += o.m.v; return *this; }
        constexpr number &operator-=(const number &o) { m.v -= o.m.v; return *this; }
        constexpr number &operator*=(const number &o) { m.v *= o.m.v; return *this; }
        constexpr number &operator/=(const number &o) { m.v = m.v / o.m.v; return *this; }
        constexpr number &operator%=(const number &o) { m.v = m.v % o.m.v; return *this; }
        constexpr number &operator&=(const number &o) { m.v &= o.m.v; return *this; }
        constexpr number &operator|=(const number &o) { m.v |= o.m.v; return *this; }
        constexpr number &operator^=(const number &o) { m.v ^= o.m.v; return *this; }
        constexpr number &operator<<=(std::size_t k) { m.v <<= k; return *this; }
        constexpr number &operator>>=(std::size_t k) { m.v >>= k; return *this; }
        constexpr number &operator++() { ++m.v; return *this; }
        constexpr number &operator--() { --m.v; return *this; }
        constexpr number operator++(int) { number r(*this); ++m.v; return r; }
        constexpr number operator--(int) { number r(*this); --m.v; return r; }
        constexpr number operator-() const { return mk(-m.v); }
        constexpr number operator~() const { return mk(~m.v); }
        constexpr number operator<<(std::size_t k) const { return mk(m.v << k); }
        constexpr number operator>>(std::size_t k) const { return mk(m.v >> k); }
        explicit constexpr operator bool() const { return m.v != 0; }
    };
#define VF_UN(B) number<backends::cpp_int_modular_backend<B>, E>
#define VF_BIN(op) \
    template<unsigned A, unsigned B, expression_template_option E> constexpr number<backends::cpp_int_modular_backend<(A > B ? A : B)>, E> operator op(const number<backends::cpp_int_modular_backend<A>, E> &x, const number<backends::cpp_int_modular_backend<B>, E> &y) { \
        typedef number<backends::cpp_int_modular_backend<(A > B ? A : B)>, E> R; typedef typename R::T T; return R::mk((T)x.m.v op (T)y.m.v); } \
    template<unsigned A, expression_template_option E, class I, typename std::enable_if<vf_is_int<I>::value, int>::type = 0> constexpr VF_UN(A) operator op(const VF_UN(A) &x, I y) { return VF_UN(A)::mk(x.m.v op (typename VF_UN(A)::T)y); } \
    template<unsigned A, expression_template_option E, class I, typename std::enable_if<vf_is_int<I>::value, int>::type = 0> constexpr VF_UN(A) operator op(I y, const VF_UN(A) &x) { return VF_UN(A)::mk((typename VF_UN(A)::T)y op x.m.v); }
    VF_BIN(+) VF_BIN(-) VF_BIN(*) VF_BIN(/) VF_BIN(%) VF_BIN(&) VF_BIN(|) VF_BIN(^)
#undef VF_BIN
#define VF_CMP(op) \
    template<unsigned A, unsigned B, expression_template_option E> constexpr bool operator op(const VF_UN(A) &x, const VF_UN(B) &y) { typedef unsigned _BitInt((((A > B ? A : B) + 63) / 64) * 64) T; return (T)x.m.v op (T)y.m.v; } \
    template<unsigned A, expression_template_option E, class I, typename std::enable_if<vf_is_int<I>::value, int>::type = 0> constexpr bool operator op(const VF_UN(A) &x, I y) { typedef _BitInt(((A + 63) / 64) * 64 + 64) T; return (T)x.m.v op (T)y; } \
    template<unsigned A, expression_template_option E, class I, typename std::enable_if<vf_is_int<I>::value, int>::type = 0> constexpr bool operator op(I y, const VF_UN(A) &x) { typedef _BitInt(((A + 63) / 64) * 64 + 64) T; return (T)y op (T)x.m.v; }
    VF_CMP(==) VF_CMP(!=) VF_CMP(<) VF_CMP(>) VF_CMP(<=) VF_CMP(>=)
#undef VF_CMP

    template<unsigned A, expression_template_option E> constexpr bool bit_test(const VF_UN(A) &x, std::size_t i) { return i < sizeof(x.m.v) * 8 && ((x.m.v >> i) & 1) != 0; }
    template<unsigned A, expression_template_option E> constexpr VF_UN(A) &bit_set(VF_UN(A) &x, std::size_t i) { x.m.v |= ((typename VF_UN(A)::T)1) << i; return x; }
    template<unsigned A, expression_template_option E> constexpr std::size_t msb(const VF_UN(A) &x) { if (x.m.v == 0) throw std::domain_error("No bits were set in the operand."); std::size_t r = 0; auto v = x.m.v; while ((v >>= 1) != 0) ++r; return r; }
    template<unsigned A, expression_template_option E> constexpr std::size_t lsb(const VF_UN(A) &x) { if (x.m.v == 0) throw std::domain_error("No bits were set in the operand."); std::size_t r = 0; auto v = x.m.v; while (!(v & 1)) { ++r; v >>= 1; } return r; }
    template<unsigned A, unsigned B, expression_template_option E> constexpr VF_UN(A) gcd(VF_UN(A) a, VF_UN(B) b0) { VF_UN(A) b(b0); while (!b.is_zero()) { VF_UN(A) t = a % b; a = b; b = t; } return a; }
    template<unsigned A, expression_template_option E, class Eng> bool miller_rabin_test(const VF_UN(A) &x, unsigned n, Eng &) { return vi_prime(&x, sizeof(x), n); }
    template<unsigned A, expression_template_option E> bool miller_rabin_test(const VF_UN(A) &x, unsigned n) { return vi_prime(&x, sizeof(x), n); }
    template<unsigned A, expression_template_option E> std::ostream &operator<<(std::ostream &o, const VF_UN(A) &x) { vf_print(&x, sizeof(x)); return o; }

    // ---------------------------------------------------------------- residues
    template<class B, class P, expression_template_option ET>
    class number<backends::modular_adaptor<B, P>, ET> {
    public:
        typedef backends::modular_adaptor<B, P> backend_type;
        typedef typename backend_type::T T;
        backend_type m;
        constexpr number() : m() {}
        constexpr number(const number &) = default;
        constexpr number &operator=(const number &) = default;
        constexpr number(const backend_type &b) : m(b) {}
        template<class I, typename std::enable_if<vf_is_int<I>::value, int>::type = 0> constexpr number(I i) : m(i) {}
        template<class I, typename std::enable_if<vf_is_int<I>::value, int>::type = 0> constexpr number(I i, const backends::modular_params<B> &) : m(i) {}
        template<unsigned B2, expression_template_option E2> constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o) : m(o.m) {}
        template<unsigned B2, expression_template_option E2> constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o, const backends::modular_params<B> &) : m(o.m) {}
        constexpr number(const number &o, const backends::modular_params<B> &) : m(o.m) {}
        static constexpr number mk(T v) { return number(backend_type(typename backend_type::raw(), v)); }
        constexpr const backend_type &backend() const { return m; }
        constexpr backend_type &backend() { return m; }
        constexpr bool is_zero() const { return backend_type::eq(m.v, (T)0); }
        template<class X> constexpr X convert_to() const {
            if constexpr (std::is_integral<X>::value) return (X)lift();
            else return X::mk((typename X::T)lift());
        }
        constexpr T lift() const {
            if (__builtin_is_constant_evaluated()) return m.v;
            T r; vf_lift(&r, sizeof(T), &m.v, backend_type::modp(), sizeof(T)); return r;
        }
        template<unsigned B2, expression_template_option E2> explicit constexpr operator number<backends::cpp_int_modular_backend<B2>, E2>() const { return convert_to<number<backends::cpp_int_modular_backend<B2>, E2>>(); }
        constexpr number &operator+=(const number &o) { m.v = backend_type::add(m.v, o.m.v); return *this; }
        constexpr number &operator-=(const number &o) { m.v = backend_type::sub(m.v, o.m.v); return *this; }
        constexpr number &operator*=(const number &o) { m.v = backend_type::mul(m.v, o.m.v); return *this; }
        constexpr number &operator>>=(std::size_t k) { return *this = number(number<B>::mk(lift() >> k)); }
        constexpr number operator>>(std::size_t k) const { return number(number<B>::mk(lift() >> k)); }
        template<class I, typename std::enable_if<vf_is_int<I>::value, int>::type = 0> friend constexpr number operator&(const number &a, I i) { return number(number<B>::mk(a.lift() & (T)i)); }
        constexpr number &operator++() { return *this += number(1); }
        constexpr number &operator--() { return *this -= number(1); }
        constexpr number operator-() const { return mk(backend_type::neg(m.v)); }
        constexpr number operator+() const { return *this; }
        constexpr int compare(const number &o) const { return backend_type::eq(m.v, o.m.v) ? 0 : (backend_type::lt(m.v, o.m.v) ? -1 : 1); }
        std::string str(int = 0, int = 0) const { return std::string(); }
        friend constexpr number operator+(const number &a, const number &b) { return mk(backend_type::add(a.m.v, b.m.v)); }
        friend constexpr number operator-(const number &a, const number &b) { return mk(backend_type::sub(a.m.v, b.m.v)); }
        friend constexpr number operator*(const number &a, const number &b) { return mk(backend_type::mul(a.m.v, b.m.v)); }
        friend constexpr bool operator==(const number &a, const number &b) { return backend_type::eq(a.m.v, b.m.v); }
        friend constexpr bool operator!=(const number &a, const number &b) { return !backend_type::eq(a.m.v, b.m.v); }
        friend constexpr bool operator<(const number &a, const number &b) { return backend_type::lt(a.m.v, b.m.v); }
        friend constexpr bool operator>(const number &a, const number &b) { return backend_type::lt(b.m.v, a.m.v); }
        friend constexpr bool operator<=(const number &a, const number &b) { return !backend_type::lt(b.m.v, a.m.v); }
        friend constexpr bool operator>=(const number &a, const number &b) { return !backend_type::lt(a.m.v, b.m.v); }
        friend std::ostream &operator<<(std::ostream &o, const number &x) { vf_print(&x, sizeof(x)); return o; }
    };
#define VF_MN number<backends::modular_adaptor<B, P>, E>
    template<class B, class P, expression_template_option E> constexpr VF_MN inverse_mod(const VF_MN &x) { return VF_MN::mk(VF_MN::backend_type::inv(x.m.v)); }
    template<class B, class P, expression_template_option E> constexpr VF_MN ressol(const VF_MN &x) {
        if (__builtin_is_constant_evaluated()) {
            typedef typename VF_MN::backend_type Q; typedef typename Q::T T;
            T p = Q::mod(), a = x.m.v;
            if (a == 0) return VF_MN::mk(0);
            if (Q::powc(a, (T)((p - 1) / 2)) != 1) return VF_MN::mk(0);
            T q = p - 1; unsigned s = 0; while (!(q & 1)) { q >>= 1; ++s; }
            T z = 2; while (Q::powc(z, (T)((p - 1) / 2)) == 1) ++z;
            T c = Q::powc(z, q), r = Q::powc(a, (T)((q + 1) / 2)), t = Q::powc(a, q); unsigned m = s;
            while (t != 1) { unsigned i = 0; T u = t; while (u != 1) { u = Q::mul(u, u); ++i; } T b = c; for (unsigned j = 0; j + i + 1 < m; ++j) b = Q::mul(b, b); r = Q::mul(r, b); c = Q::mul(b, b); t = Q::mul(t, c); m = i; }
            return VF_MN::mk(r);
        }
        typename VF_MN::T r; vf_sqrt(&r, &x.m.v, VF_MN::backend_type::modp(), sizeof(r)); return VF_MN::mk(r);
    }
    template<class B, class P, expression_template_option E, unsigned Bits, expression_template_option E2>
    constexpr VF_MN powm(const VF_MN &x, const number<backends::cpp_int_modular_backend<Bits>, E2> &e) {
        if (__builtin_is_constant_evaluated()) return VF_MN::mk(VF_MN::backend_type::powc(x.m.v, e.m.v));
        typename VF_MN::T r; auto ev = e.m.v; vf_pow(&r, &x.m.v, VF_MN::backend_type::modp(), sizeof(r), &ev, sizeof(ev)); return VF_MN::mk(r);
    }
    template<class B, class P, expression_template_option E, class B2, class P2>
    constexpr VF_MN powm(const VF_MN &x, const number<backends::modular_adaptor<B2, P2>, E> &e) { return powm(x, number<B2>::mk(e.lift())); }
    template<class B, class P, expression_template_option E> constexpr bool bit_test(const VF_MN &x, std::size_t i) { return bit_test(number<B>::mk(x.lift()), i); }
    template<class B, class P, expression_template_option E> constexpr std::size_t msb(const VF_MN &x) { return msb(number<B>::mk(x.lift())); }

    typedef number<backends::cpp_int_modular_backend<128>> uint128_t;

    // signed digits, width w: every nonzero digit is odd and at most 2^w - 1 in magnitude
    template<unsigned A, expression_template_option E>
    inline std::vector<long> find_wnaf(std::size_t window_size, const VF_UN(A) &scalar) noexcept {
        typedef unsigned _BitInt(((A + 63) / 64) * 64 + 64) T;
        std::size_t n = ((A + 63) / 64) * 64;
        std::vector<long> res(n + 1);
        T c = scalar.m.v;
        std::size_t j = 0;
        while (c != 0) {
            long u;
            if ((c & 1) != 0) {
                u = (long)(c & (T)((1ul << (window_size + 1)) - 1));
                if (u > (long)(1ul << window_size)) u -= (long)(1ul << (window_size + 1));
                if (u > 0) c -= (T)u; else c += (T)(-u);
            } else u = 0;
            res[j] = u; ++j; c >>= 1;
        }
        return res;
    }

    template<class It> struct vf_iter { };
    template<unsigned A, expression_template_option E, class It>
    VF_UN(A) &import_bits(VF_UN(A) &x, It first, It last, unsigned chunk = 0, bool msv_first = true) {
        typedef typename VF_UN(A)::T T;
        typedef typename std::iterator_traits<It>::value_type V;
        unsigned w = chunk ? chunk : sizeof(V) * 8;
        x.m.v = 0;
        if (msv_first) { for (; first != last; ++first) x.m.v = (x.m.v << w) | (T)(typename std::make_unsigned<V>::type)*first; }
        else { unsigned s = 0; for (; first != last; ++first, s += w) if (s < sizeof(T) * 8) x.m.v |= ((T)(typename std::make_unsigned<V>::type)*first) << s; }
        return x;
    }
    template<unsigned A, expression_template_option E, class It>
    It export_bits(const VF_UN(A) &x, It out, unsigned chunk, bool msv_first = true) {
        typedef typename std::iterator_traits<It>::value_type V0;
        typedef typename std::conditional<std::is_same<V0, void>::value, unsigned char, V0>::type V;
        auto v = x.m.v;
        if (v == 0) { *out = (V)0; ++out; return out; }
        if (!msv_first) {
            while (v != 0) { *out = (V)(v & ((1ul << chunk) - 1)); ++out; v >>= chunk; }
        } else {
            unsigned n = 0; auto u = v; while (u != 0) { ++n; u >>= chunk; }
            while (n--) { *out = (V)((v >> (n * chunk)) & ((1ul << chunk) - 1)); ++out; }
        }
        return out;
    }

    template<class B> constexpr number<B> vf_getmod(const B &b) { return number<B>(b); }
    namespace backends { template<class B> constexpr number<B> modular_params<B>::get_mod() const { return number<B>(m); } }

    // ---------------------------------------------------------------- literals
    template<unsigned Bits, char... C> constexpr number<backends::cpp_int_modular_backend<Bits>> vf_literal() {
        typedef number<backends::cpp_int_modular_backend<Bits>> N; typedef typename N::T T;
        const char s[] = {C..., 0};
        T v = 0;
        const bool hex = s[0] == '0' && (s[1] == 'x' || s[1] == 'X');
        for (unsigned i = hex ? 2 : 0; s[i]; ++i) {
            unsigned d = s[i] <= '9' ? s[i] - '0' : (s[i] | 32) - 'a' + 10;
            if (s[i] == '\'') continue;
            v = v * (hex ? 16u : 10u) + d;
        }
        return N::mk(v);
    }
    inline namespace literals {
#include <vf_literals.hpp>
    }
#undef VF_UN
#undef VF_MN
}}    // namespace boost::multiprecision
using namespace boost::multiprecision::literals;

namespace std {
    template<class B, boost::multiprecision::expression_template_option E> struct hash<boost::multiprecision::number<B, E>> {
        std::size_t operator()(const boost::multiprecision::number<B, E> &x) const { return vf_hash(&x, sizeof(x)); }
    };
    template<unsigned Bits, boost::multiprecision::expression_template_option E>
    struct numeric_limits<boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>, E>> {
        static constexpr bool is_specialized = true, is_integer = true, is_signed = false, is_exact = true;
        static constexpr int digits = Bits;
    };
}
#endif
