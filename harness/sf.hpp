// Symbolic field element: the interface of the library's own element classes over the analyser's exact scalars.
#pragma once
#include <hio.hpp>
#include <cstddef>
#include <cassert>
#include <cstdint>
#include <type_traits>
#include <array>
#include <iostream>
extern "C" double vd_sqrt(double);
struct SFfield;
struct SF {
    typedef SFfield field_type;
    typedef double data_type;
    double data;
    constexpr SF() : data(0) {}
    struct raw {};
    constexpr SF(raw, double d) : data(d) {}
    template<class I, typename std::enable_if<std::is_integral<I>::value, bool>::type = true> constexpr SF(const I &i) : data((double)i) {}
    constexpr SF(const SF &o) : data(o.data) {}
    constexpr SF &operator=(const SF &o) { data = o.data; return *this; }
    static constexpr SF mk(double d) { return SF(raw(), d); }
    static constexpr SF zero() { return mk(0.0); }
    static constexpr SF one() { return mk(1.0); }
    constexpr bool is_zero() const { return data == 0.0; }
    constexpr bool is_one() const { return data == 1.0; }
    constexpr bool operator==(const SF &o) const { return data == o.data; }
    constexpr bool operator!=(const SF &o) const { return !(data == o.data); }
    constexpr SF operator+(const SF &o) const { return mk(data + o.data); }
    constexpr SF operator-(const SF &o) const { return mk(data - o.data); }
    constexpr SF operator*(const SF &o) const { return mk(data * o.data); }
    constexpr SF operator-() const { return mk(-data); }
    constexpr SF &operator+=(const SF &o) { data = data + o.data; return *this; }
    constexpr SF &operator-=(const SF &o) { data = data - o.data; return *this; }
    constexpr SF &operator*=(const SF &o) { data = data * o.data; return *this; }
    constexpr SF &operator++() { data = data + 1.0; return *this; }
    constexpr SF &operator--() { data = data - 1.0; return *this; }
    constexpr SF operator++(int) { SF t(*this); ++*this; return t; }
    constexpr SF operator--(int) { SF t(*this); --*this; return t; }
    constexpr SF doubled() const { return mk(data + data); }
    constexpr SF squared() const { return mk(data * data); }
    constexpr SF inversed() const { return mk(1.0 / data); }
    SF sqrt() const { return mk(vd_sqrt(data)); }
    template<class I> constexpr SF pow(I n) const { SF r = mk(1.0); for (std::uint64_t i = 0; i < (std::uint64_t)n; ++i) r = r * *this; return r; }
};
template<class I, class = typename std::enable_if<std::is_arithmetic<I>::value>::type> constexpr SF operator+(I a, const SF &b) { return SF(a) + b; }
template<class I, class = typename std::enable_if<std::is_arithmetic<I>::value>::type> constexpr SF operator-(I a, const SF &b) { return SF(a) - b; }
template<class I, class = typename std::enable_if<std::is_arithmetic<I>::value>::type> constexpr SF operator*(I a, const SF &b) { return SF(a) * b; }
inline std::ostream &operator<<(std::ostream &o, const SF &) { return o; }
struct SFfield {
    typedef SF value_type;
    typedef unsigned integral_type;
    static constexpr std::size_t value_bits = 64, modulus_bits = 64, number_bits = 64, arity = 1;
};
inline SF in(int k) { return SF::mk(vd_in(k)); }
inline void out(int k, const SF &x) { vd_out(k, x.data); }
