// Abstract group elements: formal integer combinations of symbolic base points.  The normalised flag is symbolic, mixed
// addition of a point that is not normalised gives an unrelated point.
#pragma once
#include <vf_mp.hpp>
#include <sf.hpp>
#include <cassert>
#include <cmath>
#include <utility>
#include <algorithm>
namespace ag {
    struct Curve {};
    struct Zc { double z; bool is_one() const { return z == 1.0; } };
    struct FV;
    struct Fld { typedef FV value_type; typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<256>> integral_type; };
    template<bool Mixed> struct G;
    template<bool Mixed> struct E;
#define AG_BODY \
        typedef Fld field_type; \
        double k; Zc Z; \
        E() : k(0), Z{0} {} \
        E(double k, double z) : k(k), Z{z} {} \
        static E zero() { return E(); } \
        static E one() { return E(vd_in(901), 1); } \
        bool is_zero() const { return k == 0.0; } \
        bool is_well_formed() const { return true; } \
        E &double_inplace() { k = k + k; Z.z = 7; return *this; } \
        E operator+(const E &o) const { return E(k + o.k, 7); } \
        E operator-(const E &o) const { return E(k - o.k, 7); } \
        E operator-() const { return E(-k, Z.z); } \
        E &operator+=(const E &o) { k = k + o.k; Z.z = 7; return *this; } \
        E &operator-=(const E &o) { k = k - o.k; Z.z = 7; return *this; } \
        bool operator==(const E &o) const { return k == o.k; } \
        bool operator!=(const E &o) const { return !(*this == o); } \
        E to_projective() const { return E(k, 1); }
    template<> struct E<true> { typedef G<true> group_type; AG_BODY
        void mixed_add(E const &o) { k = k + (o.Z.is_one() ? o.k : vd_in(900)); Z.z = 7; } };
    template<> struct E<false> { typedef G<false> group_type; AG_BODY };
    template<bool Mixed> struct G { typedef E<Mixed> value_type; typedef Fld field_type; typedef Curve curve_type; static constexpr std::size_t value_bits = 64;
        template<class R> static void batch_to_special_all_non_zeros(R &v) { for (auto &x : v) x.Z.z = 1; } };
    struct F1 { double data; F1 &operator+=(const F1 &o) { data = data + o.data; return *this; } F1 &operator-=(const F1 &o) { data = data - o.data; return *this; } F1 &operator*=(const F1 &o) { data = data * o.data; return *this; } F1 operator-(const F1 &o) const { return mk(data - o.data); } F1 operator-() const { return mk(-data); } F1 squared() const { return mk(data * data); } F1 doubled() const { return mk(data + data); } static F1 one() { return mk(1.0); } bool is_zero() const { return data == 0.0; } bool is_one() const { return data == 1.0; } bool operator==(const F1 &o) const { return data == o.data; } bool operator!=(const F1 &o) const { return !(*this == o); } static F1 mk(double d) { F1 r; r.data = d; return r; } static F1 zero() { return mk(0.0); } F1 operator+(const F1 &o) const { return mk(data + o.data); } F1 operator*(const F1 &o) const { return mk(data * o.data); } };
    template<bool M> E<M> in(int i) { return E<M>(vd_in(2 * i), vd_in(2 * i + 1)); }
    template<class X> void out(int i, const X &e) { vd_out(i, e.k); }
}
