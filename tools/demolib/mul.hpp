// A concrete stand-in group (multiples of a base point, as integers modulo a large prime) for demonstrations only.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <array>
#include <vector>
#include <iterator>
#include <algorithm>
#include <type_traits>
#include <nil/crypto3/algebra/type_traits.hpp>
typedef boost::multiprecision::number<boost::multiprecision::cpp_int_backend<256, 256, boost::multiprecision::unsigned_magnitude, boost::multiprecision::unchecked, void>> I256;
static const unsigned long long GM = 0xffffffffffffffc5ull;
typedef unsigned __int128 W;
struct Sc; struct ScField { typedef Sc value_type; typedef I256 integral_type; typedef I256 modular_type; };
struct Sc { typedef ScField field_type; typedef I256 integral_type; I256 data; Sc() {} Sc(I256 d) : data(d) {} static Sc zero() { return Sc(I256(0)); } static Sc one() { return Sc(I256(1)); }
    bool is_zero() const { return data.is_zero(); } bool operator==(const Sc &o) const { return data == o.data; } bool operator!=(const Sc &o) const { return data != o.data; } Sc operator*(const Sc &o) const { return Sc(I256(data * o.data)); } };
template<bool M> struct Gr; struct Curve {};
struct Zc { int z; bool is_one() const { return z == 1; } };
template<bool M> struct El {
    typedef Gr<M> group_type; typedef ScField field_type;
    unsigned long long k; Zc Z;
    El() : k(0), Z{0} {} El(unsigned long long k, int z = 1) : k(k % GM), Z{z} {}
    static El zero() { return El(); } static El one() { return El(1, 1); }
    bool is_zero() const { return k == 0; } bool is_well_formed() const { return true; }
    El &double_inplace() { k = (unsigned long long)(((W)k * 2) % GM); Z.z = 7; return *this; }
    El operator+(const El &o) const { return El((unsigned long long)(((W)k + o.k) % GM), 7); }
    El operator-(const El &o) const { return *this + -o; }
    El operator-() const { return El(k ? GM - k : 0, Z.z); }
    El &operator+=(const El &o) { return *this = *this + o; }
    El &operator-=(const El &o) { return *this = *this - o; }
    bool operator==(const El &o) const { return k == o.k; } bool operator!=(const El &o) const { return k != o.k; }
    El to_projective() const { return El(k, 1); }
    template<bool B = M, typename std::enable_if<B, int>::type = 0> void mixed_add(const El &o) { unsigned long long r = o.Z.is_one() ? o.k : 0x123456789abcull; *this = *this + El(r); }
};
template<bool M> struct Gr { typedef El<M> value_type; typedef ScField field_type; typedef Curve curve_type; static constexpr std::size_t value_bits = 64;
    template<class R> static void batch_to_special_all_non_zeros(R &v) { for (auto &x : v) x.Z.z = 1; } };
template<class E> E times(const E &e, const I256 &s) { E r; for (int i = 255; i >= 0; --i) { r = r + r; if (bit_test(s, i)) r = r + e; } return r; }
namespace boost { namespace multiprecision {
    inline std::vector<long> find_wnaf(std::size_t w, I256 s) {
        std::vector<long> r(257); boost::multiprecision::cpp_int c(s); std::size_t j = 0;
        while (c != 0) { long u = 0;
            if (bit_test(c, 0)) { u = (long)(c & ((1ul << (w + 1)) - 1)); if (u > (long)(1ul << w)) u -= (long)(1ul << (w + 1)); c -= u; }
            r[j++] = u; c >>= 1; }
        return r; }
} }
#define REQ(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); return 1; } } while (0)
